------------------------------ MODULE PlotTrace ------------------------------
(* Trace specification of PNG plots (P26).  State: mem, the mesh as last      *)
(* observed.  A plot is known by samples <<px, py, colours>>: a position in   *)
(* 1/16 lattice units from the region's south-west corner and the colours     *)
(* that its pixel may stand for.                                              *)
EXTENDS Plot, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Bad(c, name) == IF c THEN {} ELSE {name}
VARIABLES ti, pos, mem, bad
tvars == <<ti, pos, mem, bad>>
OffX(c, t) == (c.x - t.reg.x) % t.C
Holder(t, S, p) == {c \in S : /\ 16 * OffX(c, t) < p[1] /\ p[1] < 16 * (OffX(c, t) + c.w)
                              /\ 16 * (c.y - t.reg.y) < p[2] /\ p[2] < 16 * (c.y - t.reg.y + c.h)}
Shown(t, s) ==
    \A i \in 1 .. Len(s.samples) :
        LET p == s.samples[i]
            H == Holder(t, mem, p)
            may == IF H = {} THEN {Bare} ELSE Colours(s.layers, mem, CHOOSE c \in H : TRUE)
        IN  Rng(p[3]) \cap may # {}
\* a variable that is the same everywhere has one colour everywhere
OneColour(t, s) ==
    \A k \in 1 .. Len(s.layers) : s.layers[k] = "cmap" /\ Constant(mem, k) =>
        LET P == {i \in 1 .. Len(s.samples) : LET H == Holder(t, mem, s.samples[i])
                                              IN H # {} /\ Top(s.layers, CHOOSE c \in H : TRUE) = k}
        IN  P = {} \/ \E j \in 0 .. 255 : \A i \in P : <<k, j>> \in Rng(s.samples[i][3])
Judge(t, s) ==
    IF ~s.ok THEN {"error"}
    ELSE CASE s.op = "start" -> {}
           [] s.op = "split" -> {}
           [] s.op = "plot" ->
                    Bad(Rng(s.mem) = mem, "plot-changes-mesh")
               \cup Bad(s.tidy, "files-left")
               \cup Bad(s.proportion, "proportions")
               \cup Bad(Shown(t, s), "colours")
               \cup Bad(OneColour(t, s), "constant")
           [] OTHER -> {"unknown-op"}
TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {} /\ mem = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ LET s == T[ti].steps[pos + 1] IN
       /\ bad' = Judge(T[ti], s)
       /\ mem' = Rng(s.mem)
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
