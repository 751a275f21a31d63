----------------------------- MODULE CompareTrace -----------------------------
(* Trace specification of mesh comparisons (P24): every step is one pair of   *)
(* mesh files handed to the comparator, with the cells it reported.           *)
EXTENDS Compare, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Bad(c, name) == IF c THEN {} ELSE {name}
VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>

\* r: [ok, cells |-> reported geometries, ids |-> the ids reported for them]
Reports(r, S, m, name) ==
    IF ~r.ok THEN {name \o "-error"}
    ELSE Bad(Rng(r.cells) = S, name)
    \cup Bad(Cardinality(Rng(r.cells)) = Len(r.cells), name \o "-twice")
    \cup (IF Rng(r.cells) \subseteq Geoms(m)
          THEN Bad(Len(r.ids) = Len(r.cells) /\ \A i \in 1 .. Len(r.ids) : i <= Len(r.cells) => r.ids[i] = IdOf(m, r.cells[i]), name \o "-ids")
          ELSE {})
Judge(s) ==
         Reports(s.bounds, NewCells(s.a, s.b), s.b, "boundaries")
    \cup Reports(s.values, ValueDiff(s.a, s.b), s.b, "values")
    \cup Reports(s.attrs, AttrDiff(s.a, s.b), s.b, "attributes")
    \cup Reports(s.graph, GraphDiff(s.a, s.b), s.b, "neighbours")
    \cup Bad(s.kept, "input-changed")

TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ bad' = Judge(T[ti].steps[pos + 1])
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
