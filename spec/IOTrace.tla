------------------------------- MODULE IOTrace -------------------------------
(* Trace specification of writing, reading, exporting and rebuilding meshes   *)
(* (P09, P15, P16).                                                           *)
(*                                                                            *)
(* State: mem  the mesh in memory, as last observed through its objects       *)
(*        doc  the document written last (NoDoc: none), raw its exact text    *)
(*        clean  memory has not been modified since doc was written or read   *)
(*        memo   what building gave the first time, per configuration         *)
(* A mesh is a record: cells, a sequence of [id, rect, vals, nb] (lattice     *)
(* rectangle, variable -> value, eight neighbour id lists, sorted), and cfg,  *)
(* an opaque token of its configuration and region.                           *)
(* Values are <<kind, n>>: kind int, float, nan, inf, true, false, str, null; *)
(* n names the number or text; list values carry their mean as a third item.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Want == Rng(File.want)
W(f) == f \in Want
Bad(c, name) == IF c THEN {} ELSE {name}

VARIABLES ti, pos, mem, doc, raw, clean, memo, bad
tvars == <<ti, pos, mem, doc, raw, clean, memo, bad>>
NoDoc == [cells |-> <<>>, cfg |-> 0]

\* ---- meshes ------------------------------------------------------------------
CellSet(m) == Rng(m.cells)
SameCells(a, b) == CellSet(a) = CellSet(b) /\ Len(a.cells) = Len(b.cells)
SameMesh(a, b) == SameCells(a, b) /\ a.cfg = b.cfg

\* update of the k-th cell with the values u
Updated(m, k, u) ==
    [m EXCEPT !.cells[k].vals = u @@ @]

\* ---- GeoJSON -------------------------------------------------------------------
Shown(v, one) ==
    CASE v[1] \in {"int", "float"} -> <<"num", v[2]>>
      [] v[1] = "true" -> <<"num", one>>
      [] v[1] \in {"false", "nan", "inf", "null"} -> <<"null", 0>>
      [] v[1] = "list" -> <<"num", v[3]>>
      [] v[1] = "str" -> v
Columns(m) == UNION {DOMAIN m.cells[i].vals : i \in 1 .. Len(m.cells)}
Feature(c, cols, one) ==
    [id |-> c.id, rect |-> c.rect,
     vals |-> [n \in cols |-> IF n \in DOMAIN c.vals THEN Shown(c.vals[n], one) ELSE <<"null", 0>>]]
GeoOK(m, s, one) ==
    LET cols == IF s.only = "" THEN Columns(m) ELSE Columns(m) \cap {s.only}
    IN  /\ Len(s.features) = Len(m.cells)
        /\ Rng(s.features) = {Feature(m.cells[i], cols, one) : i \in 1 .. Len(m.cells)}

\* ---- judgement -------------------------------------------------------------------
Judge(t, s) ==
    IF ~s.ok THEN {"error"}
    ELSE IF ~s.lattice THEN {"lattice"}
    ELSE CASE s.op = "start" -> IF W("io") THEN Bad(s.given => SameMesh(s.mem, s.doc), "load-changes") ELSE {}
      [] s.op \in {"write", "save"} -> IF W("io") THEN
               Bad(SameMesh(mem, s.doc), "written-differs")
          \cup Bad(SameMesh(mem, s.mem), "writing-changes-mesh")
          \cup Bad(s.centre, "centre")
          \cup Bad(clean => s.raw = raw, "rewritten-differs") ELSE {}
      [] s.op = "read" -> IF W("io") THEN Bad(SameMesh(doc, s.mem), "read-differs") ELSE {}
      [] s.op = "update" -> IF W("io") THEN Bad(SameMesh(Updated(mem, s.k, s.vals), s.mem), "update") ELSE {}
      [] s.op = "badupdate" -> IF W("io") THEN Bad(s.refused /\ SameMesh(mem, s.mem), "bad-update") ELSE {}
      [] s.op \in {"split", "merge", "points"} -> {}
      [] s.op = "geojson" -> IF W("geojson") THEN
               Bad(GeoOK(mem, s, t.one), "geojson")
          \cup Bad(SameMesh(mem, s.mem), "export-changes-mesh")
          \cup Bad(s.filed, "file-differs") ELSE {}
      [] s.op = "savefile" -> IF W("geojson") THEN           \* JSON file holds what to_json gives
               Bad(SameMesh(mem, s.doc), "json-file")
          \cup Bad(s.filed, "file-differs")
          \cup Bad(SameMesh(mem, s.mem), "export-changes-mesh") ELSE {}
      [] s.op = "unsupported" -> IF W("geojson") THEN
               Bad(~s.written, "unsupported-written")
          \cup Bad(SameMesh(mem, s.mem), "export-changes-mesh") ELSE {}
      [] s.op = "build" -> IF W("same") THEN
               Bad(memo # NoDoc => SameCells(memo, s.mem), "different-mesh") ELSE {}
      [] OTHER -> {"unknown-op"}

Writes(s) == s.op \in {"write", "save"}
TraceInit == /\ ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {} /\ mem = NoDoc /\ doc = NoDoc
             /\ raw = 0 /\ clean = FALSE /\ memo = NoDoc
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ LET t == T[ti]  s == t.steps[pos + 1] IN
       /\ bad' = Judge(t, s)
       /\ mem' = s.mem
       /\ doc' = IF Writes(s) THEN s.doc ELSE doc
       /\ raw' = IF Writes(s) THEN s.raw ELSE raw
       /\ clean' = IF Writes(s) \/ s.op = "read" THEN TRUE
                   ELSE IF s.op \in {"split", "merge", "points", "update", "start"} THEN FALSE ELSE clean
       /\ memo' = IF s.op = "build" /\ memo = NoDoc THEN s.mem ELSE memo
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
