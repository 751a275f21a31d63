--------------------------------- MODULE Conf ---------------------------------
(* Boxes, dates and configurations as a user writes them (P13, P14).          *)
(*                                                                            *)
(* Longitudes and latitudes are integers in lattice units, C units make the   *)
(* full circle.  A box is [s, n, w, e]: from w eastwards to e.                *)
EXTENDS Geo

Rng(q) == {q[i] : i \in 1 .. Len(q)}

\* ---- boxes -------------------------------------------------------------------
InLong(x, C) == -(C \div 2) <= x /\ x <= C \div 2
BoxValid(b, C) == b.s <= b.n /\ InLong(b.w, C) /\ InLong(b.e, C)
Width(b, C) == IF b.e > b.w THEN b.e - b.w ELSE b.e - b.w + C
\* boxes that have an inside, and only one reading
BoxProper(b, C) == /\ BoxValid(b, C) /\ b.s < b.n
                   /\ \/ (b.w - b.e) % C # 0
                      \/ b.w = -(C \div 2) /\ b.e = C \div 2
BoxRect(b, C) == R(Norm(b.w, C), b.s, Width(b, C), b.n - b.s)
SameBox(a, b, C) == BoxRect(a, C) = BoxRect(b, C)

\* ---- dates -------------------------------------------------------------------
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Dim(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
               [] m \in {4, 6, 9, 11} -> 30
               [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
DateValid(y, m, d) == m \in 1 .. 12 /\ d >= 1 /\ d <= Dim(y, m) /\ y >= 1
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + Dim(y, m - 1)
DayNum(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + DaysBefore(y, m) + d
Day(q) == DayNum(q[1], q[2], q[3])
\* date expressions: [k |-> "iso", y, m, d], [k |-> "today", n] (n days later, may be
\* negative) or [k |-> "junk"]; up |-> spelled in capitals (configurations insist on it)
ExprValid(x) == CASE x.k = "iso" -> DateValid(x.y, x.m, x.d)
                  [] x.k = "today" -> TRUE
                  [] OTHER -> FALSE
Denotes(x, today) == IF x.k = "iso" THEN DayNum(x.y, x.m, x.d) ELSE today + x.n
TimesValid(a, b, today) == ExprValid(a) /\ ExprValid(b) /\ Denotes(a, today) <= Denotes(b, today)

\* ---- configurations --------------------------------------------------------------
(* cfg: [top, region, splitting, sources]                                     *)
(*   top       the set of top level keys, as a sequence                       *)
(*   region, splitting   functions from keys to values [k |-> kind, ...]      *)
(*             kinds: num (field v, lattice units), int, frac, str, null,     *)
(*             bool, list, and the date expressions iso, today, junk          *)
(*   okinds    what the three sections are: obj, list, null, str              *)
(*   sources   sequence of [keys, loader, lk, params, pk]                     *)
RegionKeys == {"lat_min", "lat_max", "long_min", "long_max", "start_time", "end_time", "cell_width", "cell_height"}
SplitKeys  == {"split_depth", "minimum_datapoints"}
TopKeys    == {"region", "data_sources", "splitting"}
DateKinds  == {"iso", "today", "junk"}
Number(v)  == v.k \in {"num"}
Text(v)    == v.k \in DateKinds \cup {"str"}

Loaders == [scalar_csv |-> {"files"}, vector_csv |-> {"files"}, lut_csv |-> {"files"},
            lut_geojson |-> {"files", "value"}, lut_shapefile |-> {"files", "value"},
            gebco |-> {"files"}, amsr |-> {"files", "hemisphere"}, rectangle |-> {}, gradient |-> {}, checkerboard |-> {}, circle |-> {}]
Given(params) == {IF p \in {"file", "folder"} THEN "files" ELSE p : p \in Rng(params)}
SourceOK(q) ==
    /\ Rng(q.keys) = {"loader", "params"}
    /\ q.lk = "str" /\ q.pk = "obj"
    /\ q.loader \in DOMAIN Loaders
    /\ Loaders[q.loader] \subseteq Given(q.params)

SchemaOK(c) ==
    /\ TopKeys \subseteq Rng(c.top)
    /\ c.okinds.region = "obj" /\ c.okinds.splitting = "obj" /\ c.okinds.data_sources = "list"
    /\ DOMAIN c.region = RegionKeys
    /\ \A f \in RegionKeys \ {"start_time", "end_time"} : Number(c.region[f])
    /\ \A f \in {"start_time", "end_time"} : Text(c.region[f])
    /\ DOMAIN c.splitting = SplitKeys
    /\ \A f \in SplitKeys : c.splitting[f].k = "int"

DatesOK(c, today) ==
    LET a == c.region.start_time  b == c.region.end_time
    IN  /\ ExprValid(a) /\ ExprValid(b)
        /\ (a.k = "today" => a.up) /\ (b.k = "today" => b.up)
        /\ Denotes(a, today) <= Denotes(b, today)

BoxOf(c) == [s |-> c.region.lat_min.v, n |-> c.region.lat_max.v, w |-> c.region.long_min.v, e |-> c.region.long_max.v]
GridOK(c, C) ==
    LET b == BoxOf(c)  cw == c.region.cell_width.v  ch == c.region.cell_height.v
    IN  /\ BoxValid(b, C)
        /\ cw > 0 /\ ch > 0
        /\ (b.n - b.s) % ch = 0
        /\ Width(b, C) % cw = 0

Accept(c, C, today) ==
    /\ SchemaOK(c)
    /\ DatesOK(c, today)
    /\ GridOK(c, C)
    /\ \A i \in 1 .. Len(c.sources) : SourceOK(c.sources[i])
NumCells(c, C) ==
    LET b == BoxOf(c) IN (Width(b, C) \div c.region.cell_width.v) * ((b.n - b.s) \div c.region.cell_height.v)
=============================================================================
