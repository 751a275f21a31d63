------------------------------- MODULE ConfModel -------------------------------
(* A user editing a configuration: from a well-formed one, any field is       *)
(* dropped, misspelt, given another kind of value, or another value; then the *)
(* configuration is submitted.  Checked on every reachable configuration:     *)
(* acceptance does not depend on where on the globe the region lies, on       *)
(* top-level extras, or on the order of sources.  All configurations are      *)
(* emitted and submitted to the real program (ConfTrace).                     *)
EXTENDS Conf, TLC, Json
CONSTANTS MaxEdits, Circle

VARIABLES cfg, edits
vars == <<cfg, edits>>
Half == Circle \div 2
Num(v) == [k |-> "num", v |-> v]
Iso(y, m, d) == [k |-> "iso", y |-> y, m |-> m, d |-> d]
Today(n, up) == [k |-> "today", n |-> n, up |-> up]
Kind(k) == [k |-> k]
Today0 == DayNum(2026, 6, 15)

Regions == {<<0, 4, 2, 6>>, <<-2, 2, Half - 4, -Half + 4>>, <<-4, 4, -Half, Half>>, <<0, 4, Half - 4, Half>>, <<0, 2, -Half, -Half + 4>>}
Base(r) ==
    [top |-> <<"region", "data_sources", "splitting">>,
     okinds |-> [region |-> "obj", data_sources |-> "list", splitting |-> "obj"],
     region |-> [lat_min |-> Num(r[1]), lat_max |-> Num(r[2]), long_min |-> Num(r[3]), long_max |-> Num(r[4]),
                 start_time |-> Iso(2020, 2, 28), end_time |-> Iso(2020, 3, 1), cell_width |-> Num(2), cell_height |-> Num(2)],
     splitting |-> [split_depth |-> Kind("int"), minimum_datapoints |-> Kind("int")],
     sources |-> <<>>]
Init == (\E r \in Regions : cfg = Base(r)) /\ edits = 0

WrongKinds == {Kind("str"), Kind("null"), Kind("bool"), Kind("list"), Kind("obj")}
Dates == {Iso(2020, 2, 28), Iso(2020, 2, 29), Iso(2021, 2, 29), Iso(1900, 2, 29), Iso(2020, 13, 1), Iso(2020, 4, 31),
          Iso(2019, 12, 31), Iso(2999, 1, 1), Today(0, TRUE), Today(5, TRUE), Today(-5, TRUE), Today(400, TRUE), Today(0, FALSE), Kind("junk")}
Source(l, ps) == [keys |-> <<"loader", "params">>, loader |-> l, lk |-> "str", params |-> ps, pk |-> "obj"]
Sources == {Source("scalar_csv", <<"files">>), Source("scalar_csv", <<"file">>), Source("scalar_csv", <<"folder">>), Source("scalar_csv", <<>>),
            Source("vector_csv", <<"files">>), Source("vector_csv", <<>>), Source("lut_csv", <<"files">>),
            Source("lut_geojson", <<"files", "value">>), Source("lut_geojson", <<"file", "value">>), Source("lut_geojson", <<"files">>), Source("lut_geojson", <<"value">>),
            Source("amsr", <<"files">>), Source("gebco", <<>>),
            Source("rectangle", <<>>), Source("gradient", <<>>), Source("circle", <<>>), Source("checkerboard", <<>>), Source("scalar_cvs", <<"files">>), Source("", <<"files">>),
            [Source("gradient", <<>>) EXCEPT !.keys = <<"loader">>], [Source("gradient", <<>>) EXCEPT !.keys = <<"params">>],
            [Source("gradient", <<>>) EXCEPT !.keys = <<"loader", "params", "weight">>],
            [Source("gradient", <<>>) EXCEPT !.lk = "num"], [Source("gradient", <<>>) EXCEPT !.pk = "list"]}
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

EditRegion == \E k \in DOMAIN cfg.region :
    \/ cfg' = [cfg EXCEPT !.region = Drop(@, k)]
    \/ \E v \in WrongKinds : cfg' = [cfg EXCEPT !.region = Put(@, k, v)]
    \/ k \in {"start_time", "end_time"} /\ \E v \in Dates \cup {Num(3)} : cfg' = [cfg EXCEPT !.region = Put(@, k, v)]
    \/ k \in {"cell_width", "cell_height"} /\ \E v \in {-2, 0, 1, 3, 4, 8, 16, 64} : cfg' = [cfg EXCEPT !.region = Put(@, k, Num(v))]
    \/ k \in {"lat_min", "lat_max"} /\ \E v \in {-6, -4, -3, 1, 6} : cfg' = [cfg EXCEPT !.region = Put(@, k, Num(v))]
    \/ k \in {"long_min", "long_max"} /\ \E v \in {-Half - 2, -Half, -Half + 2, -4, 1, 4, Half - 2, Half, Half + 2} :
           cfg' = [cfg EXCEPT !.region = Put(@, k, Num(v))]
EditUnknown ==
    \/ cfg' = [cfg EXCEPT !.region = Put(@, "colour", Kind("str"))]
    \/ cfg' = [cfg EXCEPT !.splitting = Put(@, "colour", Kind("str"))]
    \/ "note" \notin Rng(cfg.top) /\ cfg' = [cfg EXCEPT !.top = Append(@, "note")]
EditSplitting == \E k \in DOMAIN cfg.splitting :
    \/ cfg' = [cfg EXCEPT !.splitting = Drop(@, k)]
    \/ \E v \in WrongKinds \cup {Kind("frac")} : cfg' = [cfg EXCEPT !.splitting = Put(@, k, v)]
EditTop ==
    \/ \E k \in TopKeys : cfg' = [cfg EXCEPT !.top = SelectSeq(@, LAMBDA x : x # k)]
    \/ \E k \in {"region", "splitting"} : \E v \in {"list", "null", "str"} : cfg' = [cfg EXCEPT !.okinds[k] = v]
    \/ \E v \in {"obj", "null", "str"} : cfg' = [cfg EXCEPT !.okinds.data_sources = v]
EditSources == \E q \in Sources : Len(cfg.sources) < 2 /\ cfg' = [cfg EXCEPT !.sources = Append(@, q)]

Next == edits < MaxEdits /\ edits' = edits + 1 /\ (EditRegion \/ EditUnknown \/ EditSplitting \/ EditTop \/ EditSources)
ConfSpec == Init /\ [][Next]_vars
ConfView == cfg

BaseAccepted == edits = 0 => Accept(cfg, Circle, Today0)
Shift(c, d) == [c EXCEPT !.region.long_min.v = Norm(@ + d, Circle), !.region.long_max.v = Norm(@ + d, Circle)]
Anywhere ==     \* where both are proper boxes
    SchemaOK(cfg) =>
      LET b == BoxOf(cfg)  s == Shift(cfg, 6)  t == BoxOf(s)
      IN  (BoxValid(b, Circle) /\ (b.w - b.e) % Circle # 0 /\ (t.w - t.e) % Circle # 0) =>
              (GridOK(cfg, Circle) <=> GridOK(s, Circle))
ExtrasIgnored == Accept([cfg EXCEPT !.top = Append(@, "other")], Circle, Today0) = Accept(cfg, Circle, Today0)
SourceOrder == Len(cfg.sources) = 2 =>
    Accept([cfg EXCEPT !.sources = <<@[2], @[1]>>], Circle, Today0) = Accept(cfg, Circle, Today0)
\* the longitude interval is understood, and the region has an inside
InDomain ==
    SchemaOK(cfg) =>
      LET b == BoxOf(cfg)
      IN  ((InLong(b.w, Circle) /\ InLong(b.e, Circle)) => (b.w - b.e) % Circle # 0 \/ (b.w = -Half /\ b.e = Half)) /\ b.s # b.n
          /\ (b.w # Half)
Emit == InDomain => PrintT(<<"CONF", edits, ToJson(cfg)>>)
=============================================================================
