----------------------------- MODULE BuildTrace ------------------------------
(* Refinement as a state machine, run for every recorded build; the recorded  *)
(* mesh must be the machine's final state and carry the specified values.     *)
(*                                                                            *)
(* One behaviour per trace: the initial grid, then for each source in turn    *)
(* waves of quarterings until no cell must be split any more, then judgement. *)
EXTENDS Build, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Want == Rng(File.want)

VARIABLES ti, k, S, eff, bad
tvars == <<ti, k, S, eff, bad>>

CellOf(r) == R(r[1], r[2], r[3], r[4])
W(f) == f \in Want
Bad(c, name) == IF c THEN {} ELSE {name}

\* ---- judgement ----------------------------------------------------------------
ValueOK(t, o, i) ==
    LET c == CellOf(o.cells[i])
        chain == Chain(c, t.base, t.C)
    IN  \A m \in 1 .. Len(t.vars) :
          LET v == t.vars[m]
          IN  IF v.vec THEN <<o.vals[i][v.at], o.vals[i][v.at + 1]>>
                               \in VecAllowed(t.sources[v.srcs[1]], eff[v.srcs[1]], chain, t.C)
              ELSE o.vals[i][v.at] = FirstOf(t, eff, chain, v.srcs, t.C)

Judge(t) ==
    LET o == t.steps[1].obs IN
    IF ~t.steps[1].ok THEN {"error"}
    ELSE IF ~o.lattice THEN {"lattice"}
    ELSE (IF W("cells") THEN Bad({CellOf(o.cells[i]) : i \in 1 .. Len(o.cells)} = S /\ Len(o.cells) = Cardinality(S), "cells") ELSE {})
    \cup (IF W("values") THEN
            Bad(\A i \in 1 .. Len(o.cells) :
                  DepthOf(CellOf(o.cells[i]), t.base, t.C, 12) >= 0 => ValueOK(t, o, i), "values")
          ELSE {})
    \* every point counts once: the counts of the cells add up to the points in the region
    \cup (IF W("conserved") THEN
            Bad(\A m \in 1 .. Len(t.vars) :
                  LET v == t.vars[m]  s == t.sources[v.srcs[1]]
                  IN  (s.kind = "pts" /\ ~s.vec /\ s.agg = "COUNT" /\ Len(v.srcs) = 1) =>
                        /\ \A i \in 1 .. Len(o.cells) : o.vals[i][v.at][2] = 1
                        /\ SumOver(LAMBDA i : o.vals[i][v.at][1], 1 .. Len(o.cells)) = Len(eff[v.srcs[1]]), "conserved")
          ELSE {})

\* ---- the machine ----------------------------------------------------------------
Due(t, j) == IF t.sources[j].conds = <<>> THEN {} ELSE {c \in S : MustSplit(t, eff, j, c)}

TraceInit == ti \in 1 .. Len(T) /\ k = 0 /\ S = {} /\ eff = <<>> /\ bad = {}
Start == /\ k = 0
         /\ eff' = [j \in 1 .. Len(T[ti].sources) |-> Effective(T[ti].sources[j], T[ti])]
         /\ S' = InitialCells(T[ti].base, T[ti].C)
         /\ k' = 1 /\ UNCHANGED <<ti, bad>>
Refine == /\ k \in 1 .. Len(T[ti].sources)
          /\ LET D == Due(T[ti], k)
             IN  IF D # {} THEN /\ S' = (S \ D) \cup UNION {Quarters(c, T[ti].C) : c \in D}
                                /\ k' = k
                 ELSE k' = k + 1 /\ S' = S
          /\ UNCHANGED <<ti, eff, bad>>
Finish == /\ k = Len(T[ti].sources) + 1
          /\ bad' = Judge(T[ti])
          /\ k' = k + 1
          /\ IF bad' # {} THEN PrintT(<<"VERDICT", ti, 1, bad'>>) ELSE PrintT(<<"DONE", ti, Cardinality(S)>>)
          /\ UNCHANGED <<ti, S, eff>>
TraceNext == Start \/ Refine \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* invariant: at every moment of refinement the cells tile the region within the depth bound
TraceTypeOK ==
    k > 0 => /\ FoldSet(LAMBDA c, a : a + Area(c), 0, S) = RegionArea(T[ti].base)
             /\ \A c \in S : DepthOf(c, T[ti].base, T[ti].C, T[ti].maxd) >= 0
=============================================================================
