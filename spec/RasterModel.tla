----------------------------- MODULE RasterModel -----------------------------
(* All small meshes (two initial cells, up to MaxSplits quarterings) and all  *)
(* image sizes up to MaxRes.  Checked: the pixel centres that lie in the      *)
(* region are shared out among the cells, no centre is held by two cells, and *)
(* an image as fine as the lattice shows every cell on exactly its area.      *)
EXTENDS Raster, Geo, TLC, Json
CONSTANTS X0, CIRC, MaxSplits, MaxRes
VARIABLES cells, hist, rows, cols
vars == <<cells, hist, rows, cols>>
Base == [x |-> Norm(X0, CIRC), y |-> 0, w |-> 4, h |-> 4, nx |-> 2, ny |-> 1]
Reg == R(Base.x, Base.y, 8, 4)
Init == cells = InitialCells(Base, CIRC) /\ hist = <<>> /\ rows = 0 /\ cols = 0
Split(c) == /\ rows = 0 /\ Len(hist) < MaxSplits /\ c.w > 1
            /\ cells' = (cells \ {c}) \cup Quarters(c, CIRC)
            /\ hist' = Append(hist, c) /\ UNCHANGED <<rows, cols>>
Export(r, c) == rows = 0 /\ rows' = r /\ cols' = c /\ UNCHANGED <<cells, hist>>
Next == \/ \E c \in cells : Split(c)
        \/ \E r, c \in 1 .. MaxRes : Export(r, c)
RSpec == Init /\ [][Next]_vars
V == {[x |-> k.x, y |-> k.y, w |-> k.w, h |-> k.h, v |-> 0] : k \in cells}
Shared == rows > 0 =>
    \A r \in 1 .. rows, c \in 1 .. cols :
        LET h == Holder(V, Reg, CIRC, rows, cols, r, c)  t == Touched(V, Reg, CIRC, rows, cols, r, c)
        IN  /\ t # {} /\ h \subseteq t
            /\ Cardinality(h) <= 1 /\ Cardinality(t) <= 4
            /\ (h # {} <=> Cardinality(t) = 1)
FineShowsArea ==      \* at lattice resolution every cell gets as many pixels as its area
    rows = 0 => \A k \in V :
        Cardinality({p \in (1 .. 4) \X (1 .. 8) : Holder(V, Reg, CIRC, 4, 8, p[1], p[2]) = {k}}) = k.w * k.h
North == rows > 1 => \A k \in V, c \in 1 .. cols :     \* a northern pixel never shows something south of what a southern pixel shows
    \A r, q \in 1 .. rows : r < q =>
        \A a \in Holder(V, Reg, CIRC, rows, cols, r, c), b \in Holder(V, Reg, CIRC, rows, cols, q, c) : a.y >= b.y
Emit == rows > 0 => PrintT(<<"HIST", ToJson([cells |-> cells, rows |-> rows, cols |-> cols])>>)
=============================================================================
