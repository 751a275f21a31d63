------------------------------- MODULE ConfTrace -------------------------------
(* Trace specification of boundaries, dates and configurations (P13, P14):    *)
(* every step is one thing a user submitted, with what the program made of it.*)
EXTENDS Conf, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Bad(c, name) == IF c THEN {} ELSE {name}

VARIABLES ti, pos, bad
tvars == <<ti, pos, bad>>
Cell(q) == R(q[1], q[2], q[3], q[4])
Box(q) == [s |-> q[1], n |-> q[2], w |-> q[3], e |-> q[4]]
Near(a, b) == a - b <= 1 /\ b - a <= 1

\* a box and everything derived from it
JudgeBox(s, C) ==
    LET b == Box(s.box)  r == BoxRect(b, C)
        base == [x |-> r.x, y |-> r.y, w |-> r.w, h |-> r.h, nx |-> 1, ny |-> 1]
    IN IF ~BoxValid(b, C) THEN Bad(~s.ok, "invalid-box-accepted")
       ELSE IF ~s.ok THEN {"valid-box-refused"}
       ELSE Bad(s.onlattice, "lattice")
       \cup (IF ~s.onlattice THEN {} ELSE
            Bad(s.width = r.w /\ s.height = r.h, "extent")
       \cup Bad(s.limits = s.box, "limits")
       \cup Bad(Norm(s.centre2[1], 2 * C) = Norm(2 * r.x + r.w, 2 * C) /\ InLong(s.centre2[1], 2 * C)
                  /\ s.centre2[2] = 2 * r.y + r.h, "centre")
       \cup Bad(s.half2 = <<r.w, r.h>>, "half-widths")
       \cup Bad(s.corners = <<<<b.w, b.s>>, <<b.w, b.n>>, <<b.e, b.n>>, <<b.e, b.s>>, <<b.w, b.s>>>>, "corners")
       \cup Bad(/\ Len(s.pieces) >= 1
                /\ \A i \in 1 .. Len(s.pieces) :
                     LET p == Cell(s.pieces[i])
                     IN  p.x >= -(C \div 2) /\ p.x + p.w <= C \div 2 /\ p.w > 0 /\ p.y = r.y /\ p.h = r.h
                         /\ InRegion(p, base, C)
                /\ \A i, j \in 1 .. Len(s.pieces) : i # j => ~Overlap(Cell(s.pieces[i]), Cell(s.pieces[j]), C)
                /\ (IF Len(s.pieces) = 1 THEN s.pieces[1][3]
                    ELSE IF Len(s.pieces) = 2 THEN s.pieces[1][3] + s.pieces[2][3] ELSE -1) = r.w, "polygon")
       \cup Bad(SameBox(Box(s.parsed), b, C), "parsed-polygon")
       \cup Bad(Len(s.quarters) = 4 /\ {BoxRect(Box(s.quarters[i]), C) : i \in 1 .. Len(s.quarters)} = Quarters(r, C)
                  /\ \A i \in 1 .. Len(s.quarters) : BoxValid(Box(s.quarters[i]), C), "quarters")
       \cup Bad(s.qtimes, "quarter-times")
       \cup Bad(s.same, "equality") \cup Bad(s.equal = (s.other = s.box), "equality")
       \cup Bad(Near(s.size[1], s.size[2]), "size-depends-on-longitude"))

Days(s, x) == {Denotes(x, Day(s.today[i])) : i \in 1 .. Len(s.today)}
JudgeDate(s) ==
    IF ~ExprValid(s.expr) THEN Bad(~s.ok, "bad-date-accepted")
    ELSE IF ~s.ok THEN {"date-refused"}
    ELSE Bad(Day(s.day) \in Days(s, s.expr), "wrong-day")

JudgeTimes(s) ==
    LET ok == {TimesValid(s.from, s.to, Day(s.today[i])) : i \in 1 .. Len(s.today)}
    IN  IF s.ok \notin ok THEN {IF s.ok THEN "bad-times-accepted" ELSE "times-refused"}
        ELSE IF s.ok THEN Bad(Day(s.days[1]) \in Days(s, s.from) /\ Day(s.days[2]) \in Days(s, s.to), "wrong-day") ELSE {}

JudgeConf(s, C) ==
    LET acc == {Accept(s.conf, C, Day(s.today[i])) : i \in 1 .. Len(s.today)}
    IN  Bad(s.built \in acc, IF s.built THEN "bad-configuration-accepted" ELSE "configuration-refused")
   \cup Bad(s.valid = s.validfile, "file-and-dictionary-differ")
   \cup Bad(s.built => s.valid, "refused-by-validator")
   \cup (IF s.built /\ TRUE \in acc
         THEN Bad(s.cells = NumCells(s.conf, C), "cells")
         \cup Bad(Day(s.days[1]) \in Days(s, s.conf.region.start_time) /\ Day(s.days[2]) \in Days(s, s.conf.region.end_time), "period")
         ELSE {})

\* checked against two readings, e.g. configuration validators of vessels and routes
Judge(t, s) ==
    CASE s.op = "box" -> JudgeBox(s, t.C)
      [] s.op = "date" -> JudgeDate(s)
      [] s.op = "times" -> JudgeTimes(s)
      [] s.op = "conf" -> JudgeConf(s, t.C)
      [] OTHER -> {"unknown-op"}

TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ bad' = Judge(T[ti], T[ti].steps[pos + 1])
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
