------------------------------ MODULE BuiltinTrace ------------------------------
(* Trace specification of the built-in data (P21).                            *)
EXTENDS Builtin, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
TT == File.traces
Bad(c, name) == IF c THEN {} ELSE {name}
VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>

JudgeTable(t, s) ==
    IF ~s.ok THEN {"table-error"}
    ELSE Bad(Len(s.cells) = s.expected, "table-cells")
    \cup Bad(\A i \in 1 .. Len(s.cells) :
           LET q == s.cells[i]
           IN  s.vals[i] = TableValue(s.set, s.agg, R(q[1], q[2], q[3], q[4]), t.K, t.C, s.from, s.to), "table-value")
JudgeShape(t, s) ==
    IF ~s.ok THEN {"shape-error"}
    ELSE Bad(s.names = (IF Vec(s.p) THEN <<"dummy_data_u", "dummy_data_v">> ELSE <<"dummy_data">>), "shape-name")
    \cup LET got == {<<q[1], q[2], q[3]>> : q \in {s.nodes[i] : i \in 1 .. Len(s.nodes)}}
             want == ShapeNodes(s.p, t.C)
         IN  Bad(got = want /\ Len(s.nodes) = Cardinality(want), "shape-nodes")
\* random fields: one value per node, in range, a function of the seed
JudgeField(t, s) ==
    IF ~s.ok THEN {"field-error"}
    ELSE LET want == {<<Norm(s.x + i * s.dx, t.C), s.y + j * s.dy>> : i \in 1 .. (s.size - 1), j \in 1 .. (s.size - 1)}
         IN  Bad({<<s.nodes[i][1], s.nodes[i][2]>> : i \in 1 .. Len(s.nodes)} = want /\ Len(s.nodes) = Cardinality(want), "field-nodes")
        \cup Bad(s.again = s.nodes, "field-not-reproducible")
        \cup Bad(s.kind = "binary" \/ s.other # s.nodes, "field-ignores-seed")
        \cup Bad(s.names = s.wantnames, "field-name")
        \cup Bad(\A i \in 1 .. Len(s.nodes) :
                   LET v == s.nodes[i][3]
                   IN  CASE s.kind = "binary" -> v[1] \in {0, 1000}
                         [] s.kind = "scalar" -> s.lo - 1 <= v[1] /\ v[1] <= s.hi + 1
                         [] OTHER -> LET m == v[1] * v[1] + v[2] * v[2] IN (s.lo - 2) * Mx2(0, s.lo - 2) <= m /\ m <= (s.hi + 2) * (s.hi + 2), "field-range")
Judge(t, s) == CASE s.op = "table" -> JudgeTable(t, s) [] s.op = "shape" -> JudgeShape(t, s) [] s.op = "field" -> JudgeField(t, s) [] OTHER -> {"timeout"}

TraceInit == ti \in 1 .. Len(TT) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(TT[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ bad' = Judge(TT[ti], TT[ti].steps[pos + 1])
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(TT[ti].steps)
=============================================================================
