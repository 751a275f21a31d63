------------------------------ MODULE ValidModel ------------------------------
(* Small meshes (two initial cells, some quarterings) and every placement of  *)
(* up to MaxPts points, on edges and outside included.  Checked: a point      *)
(* inside the region has exactly one cell, one outside has none; a mesh that  *)
(* holds its data exactly is at distance nought; the mean difference never    *)
(* exceeds the root mean square; refining a cell with unchanged values        *)
(* changes nothing.  Emitted for the real validator.                          *)
EXTENDS Valid, TLC, Json
CONSTANTS X0, CIRC, MaxSplits, MaxPts
VARIABLES cells, pts, stage, n
vars == <<cells, pts, stage, n>>
Base == [x |-> Norm(X0, CIRC), y |-> 0, w |-> 2, h |-> 2, nx |-> 2, ny |-> 1]
With(c, v) == [x |-> c.x, y |-> c.y, w |-> c.w, h |-> c.h, v |-> v]
Bare(c) == R(c.x, c.y, c.w, c.h)
Start == {With(c, <<IF c.x = Base.x THEN 2 ELSE 5>>) : c \in InitialCells(Base, CIRC)}
Init == cells = Start /\ pts = <<>> /\ stage = "split" /\ n = 0
Split(c) == /\ stage = "split" /\ n < MaxSplits /\ c.w > 1
            /\ cells' = (cells \ {c}) \cup {With(q, <<IF q.y > c.y THEN c.v[1] ELSE c.v[1] + 3>>) : q \in Quarters(Bare(c), CIRC)}
            /\ n' = n + 1 /\ UNCHANGED <<pts, stage>>
Place(x, y, v) == /\ Len(pts) < MaxPts
                  /\ pts' = Append(pts, [x |-> Norm(x, CIRC), y |-> y, v |-> <<v>>])
                  /\ stage' = "data" /\ UNCHANGED <<cells, n>>
Next == \/ \E c \in cells : Split(c)
        \/ \E x \in X0 - 1 .. X0 + 5, y \in -1 .. 3, v \in {2, 5} : Place(x, y, v)
VSpec == Init /\ [][Next]_vars
Inside(p) == ((p.x - Base.x - 1) % CIRC) < 4 /\ 0 < p.y /\ p.y <= 2
OneHome == \A i \in 1 .. Len(pts) : Cardinality(Home(cells, pts[i], CIRC)) = IF Inside(pts[i]) THEN 1 ELSE 0
Sq == Squares(cells, pts, CIRC)
MeanBelowRms == LET a == SumAbs(Sq, Len(Sq))  s == SumSq(Sq, Len(Sq)) IN a * a <= Used(Sq) * s
ExactIsZero == (\A i \in 1 .. Len(pts) : \A c \in Home(cells, pts[i], CIRC) : c.v = pts[i].v) <=> SumSq(Sq, Len(Sq)) = 0
FinerSame == \A c \in cells : c.w > 1 =>
    Squares((cells \ {c}) \cup {With(q, c.v) : q \in Quarters(Bare(c), CIRC)}, pts, CIRC) = Sq
Emit == Len(pts) = MaxPts => PrintT(<<"HIST", ToJson([cells |-> cells, pts |-> pts])>>)
=============================================================================
