------------------------------ MODULE ReadersTrace ------------------------------
(* Trace specification of the dataset readers (P20): every step is one        *)
(* catalogue read by the real loader for a region and period.                 *)
EXTENDS Readers, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Bad(c, name) == IF c THEN {} ELSE {name}
VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>

Node(q) == [x |-> q[1], y |-> q[2], t |-> q[3], a |-> q[4], b |-> q[5], gone |-> q[6]]
FilesOf(s) == {[date |-> s.files[i].date, nodes |-> {Node(s.files[i].nodes[j]) : j \in 1 .. Len(s.files[i].nodes)}] : i \in 1 .. Len(s.files)}
Near(m, n, tol, C) == /\ m.t = n.t /\ m.v = n.v
                      /\ Abs(m.y - n.y) <= tol
                      /\ (Abs(m.x - n.x) <= tol \/ Abs(m.x - n.x) >= C - tol)
Judge(t, s) ==
    IF ~s.ok THEN {"refused"} ELSE
    LET reg == R(s.region[1], s.region[2], s.region[3], s.region[4])
        want == Delivered(s.reader, s.units, FilesOf(s), reg, s.period, t.C)
        got == {[x |-> q[1], y |-> q[2], t |-> q[3], v |-> q[4]] : q \in {s.nodes[i] : i \in 1 .. Len(s.nodes)}}
        lost == IF s.tol = 0 THEN want \ got ELSE {n \in want : \A m \in got : ~Near(m, n, s.tol, t.C)}
        extra == IF s.tol = 0 THEN got \ want ELSE {m \in got : \A n \in want : ~Near(m, n, s.tol, t.C)}
    IN  Bad(s.names = (IF s.rename = <<>> THEN Names(s.reader) ELSE s.rename), "variable-name")
   \cup Bad(lost = {}, "node-lost-or-changed")
   \cup Bad(extra = {}, "node-invented-or-changed")
   \cup Bad(Len(s.nodes) = Cardinality(want), "node-repeated")
   \cup Bad(s.inrange, "longitude-range")

TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ bad' = Judge(T[ti], T[ti].steps[pos + 1])
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
