------------------------------ MODULE DocsTrace ------------------------------
(* Trace specification of the validators of vessel files, route files and     *)
(* waypoint tables (P23): a step is one submission, in memory and as a file.  *)
EXTENDS Docs, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Bad(c, name) == IF c THEN {} ELSE {name}
VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>

\* s.forms: how it was handed over (memory, file, indexed), s.took: whether it was accepted each time
Judge(s) ==
    LET ok == Accept(s.kind, s.doc)
    IN  UNION {Bad(s.took[i] = ok, IF ok THEN s.kind \o "-refused" ELSE "bad-" \o s.kind \o "-accepted") : i \in 1 .. Len(s.took)}
        \cup Bad(s.kept, "input-changed")

TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ bad' = Judge(T[ti].steps[pos + 1])
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
