------------------------------ MODULE ValidTrace ------------------------------
(* Trace specification of mesh validation (P25).                              *)
EXTENDS Valid, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Bad(c, name) == IF c THEN {} ELSE {name}
Rng(q) == {q[i] : i \in 1 .. Len(q)}
VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>
Scale == 10000

\* observed (times Scale, rounded) equals total / number; None: there is no mean of nothing
Mean(obs, total, number) ==
    IF number = 0 THEN obs = None
    ELSE LET d == obs * number - total * Scale IN obs # None /\ obs >= 0 /\ obs <= 2000 * Scale /\ d <= number /\ -d <= number

\* against all source data
JudgeFull(t, s) ==
    LET q == Squares(Rng(s.cells), s.pts, t.C)  n == Used(q)
    IN  Bad(s.count = Len(s.cells), "cell-count")
   \cup Bad(Mean(s.meansq, SumSq(q, Len(q)), n), "root-mean-square")
   \cup (IF \A i \in 1 .. Len(q) : q[i] >= 0 => IsSquare(q[i]) THEN Bad(Mean(s.mean, SumAbs(q, Len(q)), n), "mean") ELSE {})

\* one sampled square: data and mesh values, pairwise
Pair(S, p, C) == <<p.v[1], (CHOOSE c \in Home(S, p, C) : TRUE).v[1]>>
Count(q, x) == Cardinality({i \in 1 .. Len(q) : q[i] = x})
JudgeSample(t, s) ==
    LET S == Rng(s.cells)
        in == SelectSeq(s.pts, LAMBDA p : InSquare(p, s.square, t.C))
        want == [i \in 1 .. Len(in) |-> Pair(S, in[i], t.C)]
    IN  IF Len(s.data) # Len(s.mesh) THEN {"data-and-mesh-values-do-not-pair"}
        ELSE LET got == [i \in 1 .. Len(s.data) |-> <<s.data[i], s.mesh[i]>>]
             IN  Bad(/\ Len(got) = Len(want)
                     /\ \A x \in Rng(want) \cup Rng(got) : Count(got, x) = Count(want, x), "sample")

\* over random samples: every point is s.diff away from its cell, so is the root mean square
JudgeRandom(t, s) ==
    LET q == Squares(Rng(s.cells), s.pts, t.C)
    IN  IF \E i \in 1 .. Len(q) : q[i] # s.diff * s.diff THEN {"scenario"}
        ELSE Bad(Mean(s.meansq, s.diff * s.diff, 1), "random-samples")

Judge(t, s) ==
    IF ~s.ok THEN {"error"}
    ELSE CASE s.op = "full" -> JudgeFull(t, s)
           [] s.op = "sample" -> JudgeSample(t, s)
           [] s.op = "random" -> JudgeRandom(t, s)
           [] s.op = "build" -> {}
           [] OTHER -> {"unknown-op"}

TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ bad' = Judge(T[ti], T[ti].steps[pos + 1])
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
