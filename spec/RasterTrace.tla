----------------------------- MODULE RasterTrace -----------------------------
(* Trace specification of GeoTIFF exports (P22).                              *)
(* State: mem, the mesh as last observed (cells with the value exported, -1   *)
(* for a missing one); an export must show exactly that and change nothing.   *)
EXTENDS Raster, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
T == File.traces
Rng(s) == {s[i] : i \in 1 .. Len(s)}
Bad(c, name) == IF c THEN {} ELSE {name}
Red == 16711680

VARIABLES ti, pos, mem, bad
tvars == <<ti, pos, mem, bad>>
Pixels(s) == (1 .. Len(s.px)) \X (1 .. Len(s.px[1]))

Shape(t, s) == s.size = <<s.rows, s.cols>>
Placed(t, s) == s.place = <<t.reg.x, t.reg.y + t.reg.h, t.reg.w, t.reg.h>>

Values(t, s) ==
    \A p \in (1 .. s.rows) \X (1 .. s.cols) :
        s.px[p[1]][p[2]] \in MayShow(mem, t.reg, t.C, s.rows, s.cols, p[1], p[2])

\* without a colour table: one colour per value, red for what is missing
Palette(t, s) ==
    LET P == (1 .. s.rows) \X (1 .. s.cols)
        show == [p \in P |-> MayShow(mem, t.reg, t.C, s.rows, s.cols, p[1], p[2])]
        sure == {p \in P : Cardinality(show[p]) = 1}
        val(p) == CHOOSE v \in show[p] : TRUE
        col(p) == s.px[p[1]][p[2]]
    IN  /\ \A p, q \in sure : val(p) = val(q) => col(p) = col(q)
        /\ \A p \in sure : val(p) = -1 <=> col(p) = Red

Warped(t, s) ==
    \A i \in 1 .. Len(s.pos) :
        LET q == s.pos[i]  near == NearCells(mem, t.reg, t.C, s.rows, s.cols, <<q[1], q[2]>>, s.Q)
            inside == WellInside(t.reg, s.rows, s.cols, <<q[1], q[2]>>, s.Q)
        IN  \/ q[3] = 0 /\ ~inside            \* 0: outside the image
            \/ q[3] \in {k.v : k \in near}
            \/ q[3] = -1 /\ s.gaps

Judge(t, s) ==
    IF ~s.ok THEN {"error"}
    ELSE CASE s.op = "start" -> {}
           [] s.op = "split" -> {}
           [] s.op = "export" ->
                    Bad(Rng(s.mem) = mem, "export-changes-mesh")
               \cup Bad(s.tidy, "files-left")
               \cup Bad(s.crs, "crs")
               \cup (IF s.mode = "warped" THEN Bad(Warped(t, s), "reprojected")
                     ELSE IF ~Shape(t, s) THEN {"size"}
                     ELSE Bad(Placed(t, s), "placement")
                       \cup (IF s.mode = "table" THEN Bad(Values(t, s), "pixels") ELSE Bad(Palette(t, s), "palette")))
           [] OTHER -> {"unknown-op"}

TraceInit == ti \in 1 .. Len(T) /\ pos = 0 /\ bad = {} /\ mem = {}
TraceNext ==
    /\ bad = {}
    /\ pos < Len(T[ti].steps)
    /\ pos' = pos + 1 /\ ti' = ti
    /\ LET s == T[ti].steps[pos + 1] IN
       /\ bad' = Judge(T[ti], s)
       /\ mem' = Rng(s.mem)
    /\ (bad' # {} => PrintT(<<"VERDICT", ti, pos + 1, bad'>>))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceTypeOK == pos \in 0 .. Len(T[ti].steps)
=============================================================================
