------------------------------ MODULE BuildModel ------------------------------
(* The building machine on its own, over exhaustively enumerated small        *)
(* configurations.  Cells are visited in *any* order within the turn of a     *)
(* source (the code uses one particular order), and the checked properties    *)
(* say that this does not matter:                                             *)
(*   Tiles      at every moment the cells tile the region within the depth    *)
(*   OncePoint  at every moment every effective point is in exactly one cell  *)
(*   Confluent  every maximal run ends in the same mesh                       *)
(*   NothingDue at the end of a turn nothing is left to split                 *)
(* Each configuration is emitted and replayed into the real builder.          *)
EXTENDS Build, Json
CONSTANTS Family, Wrap     \* Wrap: 0 regional, 1 edge on the antimeridian, 2 cell straddling it, 3 global

VARIABLES conf, k, S,
          Eff      \* the effective points of each source (fixed by conf)
bvars == <<conf, k, S, Eff>>

\* ---- building blocks ------------------------------------------------------------
\* lattice: one unit = 1/2 degree (C = 720), or 22.5 degrees for the global grids (C = 16)
CIRC == IF Wrap = 3 THEN 16 ELSE 720
X0 == CASE Wrap = 0 -> 8 [] Wrap = 1 -> 352 [] Wrap = 2 -> 354 [] Wrap = 3 -> -8
Src(pts, agg, fill, conds, minpts) ==
    [kind |-> "pts", vec |-> FALSE, grid |-> FALSE, timed |-> FALSE, minpts |-> minpts, agg |-> agg, fill |-> fill,
     ds |-> <<1, 1>>, pts |-> pts, conds |-> conds, polys |-> <<>>, outside |-> NAV]
Cond(thr, lb, ub, lock) == [type |-> "scalar", thr |-> thr, lb |-> lb, ub |-> ub, lock |-> lock]
Conf(base, maxd, sources, vars) ==
    [C |-> CIRC, base |-> base, maxd |-> maxd, tlo |-> 1, thi |-> 10, maxconds |-> 3, sources |-> sources, vars |-> vars]
Var(i) == [name |-> "v", vec |-> FALSE, srcs |-> <<i>>, at |-> i]
Parent == <<"parent", 0, 1>>
Fills == {Parent, <<"value", 7, 2>>, <<"value", 0, 1>>, <<"nan", 0, 1>>}
Seqs(n, v) == [i \in 1 .. n |-> v]
\* the global grids are half as many units high (180 degrees of latitude are 8 units)
YAt(y) == IF Wrap = 3 THEN ((y + 1) \div 2) - 4 ELSE y
At(x, y, v) == <<Norm(X0 + x, CIRC), YAt(y), 0, v>>
GridN(n) == [x |-> Norm(X0, CIRC), y |-> IF Wrap = 3 THEN -4 ELSE 0, w |-> 8, h |-> IF Wrap = 3 THEN 4 ELSE 8, nx |-> n, ny |-> 1]
Grid1 == GridN(1)
Grid2 == GridN(2)

\* ---- families --------------------------------------------------------------------
\* P03: a points above, b at or below the threshold, m missing, against all bounds
LBUB == {<< <<0, 1>>, <<1, 1>> >>, << <<1, 4>>, <<3, 4>> >>, << <<1, 2>>, <<1, 1>> >>, << <<0, 1>>, <<1, 2>> >>, << <<1, 3>>, <<2, 3>> >>}
CondFamily ==
    {Conf(Grid1, 1, <<Src([i \in 1 .. a + b + m |-> At(1 + i, 1 + ((3 * i) % 8), IF i <= a THEN 5 ELSE IF i <= a + b THEN 4 ELSE NAV)],
                          "MAX", Parent, <<Cond(<<4, 1>>, u[1], u[2], lock)>>, mp)>>, <<Var(1)>>) :
        a \in 0 .. 3, b \in 0 .. 3, m \in 0 .. 1, u \in LBUB, lock \in BOOLEAN, mp \in {0, 2, 4}}
\* P03: verdicts of up to three sources with up to two conditions, in every order
\* verdict h: heterogeneous at the top, o: locked, c: abstains
Het == Cond(<<4, 1>>, <<0, 1>>, <<1, 1>>, TRUE)
Hom == Cond(<<2, 1>>, <<0, 1>>, <<1, 1>>, TRUE)
Clr == Cond(<<9, 1>>, <<0, 1>>, <<1, 1>>, TRUE)
TwoVals == <<At(1, 1, 3), At(6, 7, 5), At(2, 2, 5)>>
CombineFamily ==
    LET CS == {<<>>, <<Het>>, <<Hom>>, <<Clr>>, <<Het, Hom>>, <<Clr, Het>>, <<Hom, Clr>>, <<Het, Het>>}
    IN  {Conf(Grid1, d, <<Src(TwoVals, "MIN", Parent, c1, 1), Src(TwoVals, "MAX", Parent, c2, 1), Src(TwoVals, "MEAN", Parent, c3, 1)>>,
              <<Var(1), Var(2), Var(3)>>) : c1 \in CS, c2 \in CS, c3 \in {<<>>, <<Het>>, <<Hom>>}, d \in {1, 2}}
\* P03: all verdicts of five sources in a row, each with one condition or none
Combine5Family ==
    LET CS == {<<>>, <<Het>>, <<Hom>>, <<Clr>>}
    IN  {Conf(Grid1, 1, [i \in 1 .. 5 |-> Src(TwoVals, "MIN", Parent, cs[i], 1)], [i \in 1 .. 5 |-> Var(i)]) : cs \in [1 .. 5 -> CS]}
\* P04: one point anywhere in and around two cells, some of which are split (once or twice)
Splitters == {<<>>, <<At(1, 1, 3), At(7, 7, 5)>>, <<At(9, 1, 3), At(15, 7, 5)>>, <<At(1, 1, 3), At(3, 3, 5), At(9, 1, 3), At(10, 2, 5), At(15, 7, 5)>>}
PlaceFamily ==
    {Conf(Grid2, 2, <<Src(sp, "MIN", Parent, <<Het>>, 1),
                      Src(<<At(x, y, 9)>>, "COUNT", Parent, <<>>, 1), Src(<<At(x, y, 9)>>, "MAX", <<"nan", 0, 1>>, <<>>, 1)>>,
          <<Var(1), Var(2), Var(3)>>) :
        sp \in Splitters \ {<<>>}, x \in IF Wrap = 3 THEN 1 .. 16 ELSE -1 .. 17, y \in -1 .. 9}
\* P06: where data is relative to a deep cell, under every fill policy
Deep == <<At(1, 1, 3), At(2, 2, 5), At(7, 7, 5)>>
Spots == {At(1, 1, 6), At(3, 1, 2), At(6, 6, 8), At(1, 1, NAV), At(6, 6, NAV), At(3, 3, NAV)}
FillFamily ==
    {Conf(Grid1, 2, <<Src(Deep, "MIN", Parent, <<Het>>, 1), Src(SetToSeq(P), a, f, <<>>, 1)>>, <<Var(1), Var(2)>>) :
        P \in {Q \in SUBSET Spots : Cardinality(Q) \in 1 .. 3}, a \in {"MEAN", "MIN", "STD"}, f \in Fills}
    \cup  \* two sources of the same variable
    {Conf(Grid1, 2, <<Src(Deep, "MIN", Parent, <<Het>>, 1), Src(<<p>>, "MAX", f, <<>>, 1), Src(<<q>>, "MEAN", f2, <<>>, 1)>>,
          <<Var(1), [name |-> "v", vec |-> FALSE, srcs |-> <<2, 3>>, at |-> 2]>>) :
        p \in Spots, q \in Spots, f \in Fills, f2 \in Fills}
\* P06: vectors of which components are missing here and there
VFillFamily ==
    LET V == << <<4, 3>>, <<NAV, 2>>, <<-5, NAV>>, <<NAV, NAV>> >>
        P(x, y, i) == At(x, y, V[i][1]) \o <<V[i][2]>>
    IN  {Conf(Grid1, 2, <<Src(Deep, "MIN", Parent, <<Het>>, 1),
                          [Src(<<P(1, 1, a), P(3, 1, b), P(6, 6, c)>>, g, f, <<>>, 1) EXCEPT !.vec = TRUE]>>,
              <<Var(1), [name |-> "w", vec |-> TRUE, srcs |-> <<2>>, at |-> 2]>>) :
            a \in 1 .. 4, b \in 1 .. 4, c \in 1 .. 4, g \in {"MEAN", "MIN", "MAX"}, f \in Fills}
\* P05: all small multisets of values under all aggregates
AggFamily ==
    LET Vs == {-1, 0, 2, 7, NAV}
        Seq4 == UNION {{s \in [1 .. n -> Vs] : \A i \in 1 .. n - 1 : s[i] <= s[i + 1]} : n \in 1 .. 4}
    IN  {Conf(Grid1, 0, <<[Src([i \in 1 .. Len(s) |-> At(1 + ((5 * i) % 8), i, s[i])], a, f, <<>>, 1) EXCEPT !.grid = FALSE]>>, <<Var(1)>>) :
            s \in Seq4, a \in {"MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT"}, f \in {Parent}}
\* P07: all small multisets of vectors
VAggFamily ==
    LET Vs == << <<0, 0>>, <<3, -4>>, <<-2, 1>>, <<1, 6>>, <<NAV, NAV>>, <<NAV, 2>>, <<-5, NAV>> >>
        Seq3 == UNION {{s \in [1 .. n -> 1 .. 7] : \A i \in 1 .. n - 1 : s[i] <= s[i + 1]} : n \in 1 .. 3}
    IN  {Conf(Grid1, 0, <<[Src([i \in 1 .. Len(s) |-> At(1 + ((5 * i) % 8), i, Vs[s[i]][1]) \o <<Vs[s[i]][2]>>], a, f, <<>>, 1)
                              EXCEPT !.vec = TRUE]>>,
               << [name |-> "v", vec |-> TRUE, srcs |-> <<1>>, at |-> 1] >>) :
            s \in {s \in Seq3 : TRUE}, a \in {"MIN", "MAX", "MEAN", "STD"}, f \in {Parent, <<"value", 7, 2>>}}
\* P08: one or two rectangles of a look-up table, boundary splitting on or off
Poly(x, y, w, h, v) == [rects |-> << <<X0 + x, y, w, h>> >>, v |-> v]
LutSrc(polys, agg, conds) == [Src(<<>>, agg, Parent, conds, 1) EXCEPT !.kind = "lut", !.polys = polys]
Bnd(b) == [type |-> "boundary", thr |-> <<0, 1>>, lb |-> <<0, 1>>, ub |-> <<0, 1>>, lock |-> FALSE, boundary |-> b]
LutFamily ==
    LET xs == {-4, 0, 2, 4, 8, 9}
        ps == {<<Poly(x, y, w, h, 3)>> : x \in xs, y \in {-4, 0, 3, 8}, w \in {2, 4, 16}, h \in {4, 20}}
        qs == {<<Poly(x, -6, w, 20, 3), Poly(x + w, -6, 30, 20, 5)>> : x \in {-12, -3, -8}, w \in {3, 8, 10, 12, 14, 16}}
    IN  {Conf(Grid1, d, <<LutSrc(p, a, <<Bnd(TRUE)>>)>>, <<Var(1)>>) : p \in ps, a \in {"MIN", "MEAN"}, d \in {2}}
        \cup {Conf(Grid1, 2, <<LutSrc(p, a, <<Bnd(b)>>)>>, <<Var(1)>>) : p \in qs, a \in {"MIN", "MAX", "MEAN", "STD", "MEDIAN"}, b \in BOOLEAN}

\* P19: small vector fields on a grid of nodes; curl and deviation conditions
Field(f(_, _), nx, ny) == [i \in 1 .. nx * ny |-> LET gx == (i - 1) % nx  gy == (i - 1) \div nx
                                                  IN At(1 + 2 * gx, 1 + 2 * gy, f(gx, gy)[1]) \o <<f(gx, gy)[2]>>]
VecConds == {[type |-> ty, thr |-> <<th, 13>>, lb |-> b[1], ub |-> b[2], lock |-> l] :
                ty \in {"curl", "dmag"}, th \in {-4, 5, 15, 30, 60}, b \in {<< <<0, 1>>, <<1, 1>> >>, << <<1, 4>>, <<3, 4>> >>}, l \in BOOLEAN}
VSplitFamily ==
    LET F1(x, y) == <<-y, x>>
        F2(x, y) == <<y * y, x>>
        F3(x, y) == IF x < 2 THEN <<0, 0>> ELSE <<0, 3>>
        F4(x, y) == <<(x * 3) % 4, (y * 2 + x) % 5>>
        F5(x, y) == <<1, 2>>
        mk(p, c, g, mp, d) == Conf(Grid1, d, <<[Src(p, "MEAN", Parent, <<c>>, mp) EXCEPT !.vec = TRUE, !.grid = g]>>,
                             << [name |-> "v", vec |-> TRUE, srcs |-> <<1>>, at |-> 1] >>)
    IN  {mk(p, c, g, mp, 2) : p \in {Field(F1, 4, 4), Field(F2, 4, 3), Field(F3, 4, 4), Field(F4, 4, 4), Field(F4, 3, 4), Field(F4, 4, 1), Field(F3, 1, 3), Field(F5, 3, 3)},
                       c \in {c \in VecConds : c.type = "curl" \/ c.thr[1] > 0}, g \in BOOLEAN, mp \in {1, 5}}

\* P18: blocks of a grid of nodes; positions are multiples of 12 so that block means are exact
DsFamily ==
    LET G == [x |-> 96, y |-> 0, w |-> 96, h |-> 96, nx |-> 1, ny |-> 1]
        Node(x, y, v) == <<96 + x, y, 0, v>>
        nodes(nx, ny, st) == [i \in 1 .. nx * ny |-> LET gx == (i - 1) % nx  gy == (i - 1) \div nx
                                IN Node(st + 12 * gx, st + 12 * gy, 36 * ((gx * 7 + gy * 5 + gx * gy) % 11))]
    IN  {Conf(G, 1, <<[Src(nodes(nx, ny, st), a, Parent, <<Cond(<<180, 1>>, <<0, 1>>, <<1, 1>>, FALSE)>>, 1) EXCEPT !.grid = TRUE, !.ds = <<fa, fb>>]>>, <<Var(1)>>) :
            nx \in {3, 5, 8}, ny \in {3, 4, 8}, st \in {0, 6, 24}, a \in {"MIN", "MAX", "MEAN", "COUNT"}, fa \in 1 .. 3, fb \in 1 .. 3}

Confs == CASE Family = "cond" -> CondFamily
           [] Family = "combine" -> CombineFamily
           [] Family = "combine5" -> Combine5Family
           [] Family = "place" -> PlaceFamily
           [] Family = "fill" -> FillFamily
           [] Family = "vfill" -> VFillFamily
           [] Family = "agg" -> AggFamily
           [] Family = "vagg" -> VAggFamily
           [] Family = "lut" -> LutFamily
           [] Family = "vsplit" -> VSplitFamily
           [] Family = "ds" -> DsFamily

\* ---- the machine ------------------------------------------------------------------
DueIn(SS, j) == IF conf.sources[j].conds = <<>> THEN {} ELSE {c \in SS : MustSplit(conf, Eff, j, c)}
RECURSIVE Waves(_, _)
Waves(SS, j) == IF j > Len(conf.sources) THEN SS
                ELSE LET D == DueIn(SS, j)
                     IN  IF D = {} THEN Waves(SS, j + 1)
                         ELSE Waves((SS \ D) \cup UNION {Quarters(c, conf.C) : c \in D}, j)
Result == Waves(InitialCells(conf.base, conf.C), 1)

BInit == conf \in Confs /\ k = 1 /\ S = InitialCells(conf.base, conf.C)
         /\ Eff = [j \in 1 .. Len(conf.sources) |-> Effective(conf.sources[j], conf)]
SplitOne == /\ k <= Len(conf.sources)
            /\ \E c \in DueIn(S, k) : S' = (S \ {c}) \cup Quarters(c, conf.C)
            /\ UNCHANGED <<conf, k, Eff>>
NextSource == /\ k <= Len(conf.sources) /\ DueIn(S, k) = {}
              /\ k' = k + 1 /\ UNCHANGED <<conf, S, Eff>>
BNext == SplitOne \/ NextSource
BSpec == BInit /\ [][BNext]_bvars

TilesInv == /\ FoldSet(LAMBDA c, a : a + Area(c), 0, S) = RegionArea(conf.base)
            /\ \A c \in S : DepthOf(c, conf.base, conf.C, conf.maxd) >= 0
OncePoint == \A j \in 1 .. Len(conf.sources) : \A i \in 1 .. Len(Eff[j]) :
                Cardinality({c \in S : InCell(Eff[j][i], c, conf.C)}) = 1
Confluent == k > Len(conf.sources) => S = Result
\* values filled from ancestors never leave the range of the data
Emit == (k = 1 /\ S = InitialCells(conf.base, conf.C)) => PrintT(<<"HIST", ToJson(conf)>>)
=============================================================================
