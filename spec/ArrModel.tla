------------------------------- MODULE ArrModel -------------------------------
(* Arrangements of the rows of a table: their order, and how they are spread  *)
(* over files.  A move takes one row out and puts it anywhere else; every     *)
(* arrangement is reachable.  Checked: the rows are preserved as a bag, and   *)
(* the mesh (cells and values) that the specification derives from the        *)
(* arrangement is that of the first one.  Every arrangement is emitted and    *)
(* replayed into the real builder.                                            *)
EXTENDS Build, Json
CONSTANTS NFiles

VARIABLES tab,      \* number of the table
          files     \* sequence of files, each a sequence of row numbers
avars == <<tab, files>>

\* rows <<x, y, t, v>> or <<x, y, t, v, w>>; two cells of 8 x 8 from (8, 0)
Cnd(ty, th, lb, ub) == [type |-> ty, thr |-> th, lb |-> lb, ub |-> ub, lock |-> FALSE]
Full == << <<0, 1>>, <<1, 1>> >>
Source(pts, vec, agg, cs) ==
    [kind |-> "pts", vec |-> vec, grid |-> FALSE, timed |-> TRUE, minpts |-> 1, agg |-> agg, fill |-> <<"parent", 0, 1>>,
     ds |-> <<1, 1>>, pts |-> pts, conds |-> cs, polys |-> <<>>, outside |-> NAV]
S1 == << <<10, 2, 1, 3>>, <<15, 7, 2, 5>>, <<10, 2, 3, 8>>, <<20, 4, 2, 5>> >>
S2 == << <<12, 4, 1, 3>>, <<12, 4, 1, 3>>, <<13, 5, 1, NAV>>, <<9, 7, 12, 6>> >>
V1 == << <<10, 2, 1, 3, 1>>, <<15, 7, 2, 5, -2>>, <<10, 2, 3, -8, 4>>, <<20, 4, 2, 1, 1>> >>
Tables == <<
    Source(S1, FALSE, "MIN",    <<Cnd("scalar", <<4, 1>>, Full[1], Full[2])>>),
    Source(S1, FALSE, "MEDIAN", <<Cnd("scalar", <<5, 1>>, <<1, 4>>, <<3, 4>>)>>),
    Source(S2, FALSE, "MEAN",   <<Cnd("scalar", <<4, 1>>, Full[1], Full[2])>>),
    Source(S2, FALSE, "STD",    <<>>),
    Source(S1, FALSE, "COUNT",  <<Cnd("scalar", <<4, 1>>, Full[1], Full[2])>>),
    Source(V1, TRUE,  "MEAN",   <<Cnd("dmag", <<4, 1>>, Full[1], Full[2])>>),
    Source(V1, TRUE,  "MAX",    <<Cnd("dmag", <<7, 1>>, Full[1], Full[2])>>) >>
Base == [x |-> 8, y |-> 0, w |-> 8, h |-> 8, nx |-> 2, ny |-> 1]
ConfOf(src) == [C |-> 720, base |-> Base, maxd |-> 2, tlo |-> 1, thi |-> 10, maxconds |-> 1, sources |-> <<src>>,
                vars |-> << [name |-> "v", vec |-> src.vec, srcs |-> <<1>>, at |-> 1] >>]

RECURSIVE Cat(_)
Cat(ff) == IF ff = <<>> THEN <<>> ELSE Head(ff) \o Cat(Tail(ff))
Arranged(n, ff) == [Tables[n] EXCEPT !.pts = LET o == Cat(ff) IN [i \in 1 .. Len(o) |-> Tables[n].pts[o[i]]]]

\* the mesh of a configuration, as Build defines it
RECURSIVE Refine(_, _, _)
Refine(t, eff, SS) == LET D == IF t.sources[1].conds = <<>> THEN {} ELSE {c \in SS : MustSplit(t, eff, 1, c)}
                      IN  IF D = {} THEN SS ELSE Refine(t, eff, (SS \ D) \cup UNION {Quarters(c, t.C) : c \in D})
MeshOf(src) ==
    LET t == ConfOf(src)
        eff == <<Effective(src, t)>>
    IN  {<<c, IF src.vec THEN VecAllowed(src, eff[1], Chain(c, Base, t.C), t.C)
              ELSE {FirstOf(t, eff, Chain(c, Base, t.C), <<1>>, t.C)}>> : c \in Refine(t, eff, InitialCells(Base, t.C))}

First(n) == [f \in 1 .. NFiles |-> IF f = 1 THEN [i \in 1 .. Len(Tables[n].pts) |-> i] ELSE <<>>]
AInit == tab \in 1 .. Len(Tables) /\ files = First(tab)
Without(s, i) == [k \in 1 .. Len(s) - 1 |-> IF k < i THEN s[k] ELSE s[k + 1]]
With(s, i, v) == [k \in 1 .. Len(s) + 1 |-> IF k < i THEN s[k] ELSE IF k = i THEN v ELSE s[k - 1]]
Move == \E f \in 1 .. NFiles : \E i \in 1 .. Len(files[f]) :
        LET v == files[f][i]
            less == [files EXCEPT ![f] = Without(@, i)]
        IN  \E g \in 1 .. NFiles : \E j \in 1 .. Len(less[g]) + 1 :
              files' = [less EXCEPT ![g] = With(@, j, v)] /\ tab' = tab
ASpec == AInit /\ [][Move]_avars

Bag == LET o == Cat(files) IN Len(o) = Len(Tables[tab].pts) /\ Rng(o) = 1 .. Len(o)
SameMesh == MeshOf(Arranged(tab, files)) = MeshOf(Tables[tab])
Emit == PrintT(<<"HIST", ToJson([tab |-> tab, files |-> files, conf |-> IF files = First(tab) THEN <<ConfOf(Tables[tab])>> ELSE <<>>])>>)
=============================================================================
