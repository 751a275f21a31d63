-------------------------------- MODULE Readers --------------------------------
(* What a reader of a published data set delivers to the mesh.                *)
(*                                                                            *)
(* A catalogue is a set of files.  A file has an issue date `date` (part of   *)
(* its name, in half days) and nodes [x, y, t, a, b, gone]: position on the   *)
(* lattice in the file's own longitude convention, time in half days (-1:     *)
(* static), one or two raw numbers, and whether the file marks it as missing. *)
(* The reader selects files by its data set's naming scheme, and delivers     *)
(* every present node in the region and period once, longitude canonical,     *)
(* values converted.                                                          *)
EXTENDS Geo, FiniteSetsExt

Era5Scalar == {"era5_sig_wave_height", "era5_max_wave_height", "era5_wave_dir", "era5_wave_period", "era5_wind_mag", "era5_wind_dir"}
Era5 == Era5Scalar \cup {"era5_wind", "era5_wave_direction"}
Static == {"gebco", "bsose_depth", "modis", "sose", "visual_iced", "reprojected_csv", "reprojected_vector"}
Averaged == {"baltic_currents"}
Other == {"bsose_sic", "baltic_sic", "northsea_currents", "duacs_currents", "ecmwf_sig_wave_height", "icenet", "amsr", "oras5_currents"}
AllReaders == Era5 \cup Static \cup Averaged \cup Other

\* ---- which files ------------------------------------------------------------
Selection(rd) == CASE rd \in Era5 \cup {"duacs_currents", "amsr"} -> "dated"
                   [] rd \in {"ecmwf_sig_wave_height", "icenet"} -> "latest"
                   [] OTHER -> "all"
Chosen(rd, files, per) ==
    CASE Selection(rd) = "all" -> files
      [] Selection(rd) = "dated" -> {f \in files : per[1] <= f.date /\ f.date <= per[2]}
      [] OTHER -> LET before == {f \in files : f.date < per[1]}
                  IN  {f \in before : \A g \in before : g.date <= f.date}

\* ---- conversions --------------------------------------------------------------
Abs(n) == IF n < 0 THEN -n ELSE n
Hyp(a, b) == CHOOSE m \in 0 .. (Abs(a) + Abs(b)) : m * m = a * a + b * b
\* where the wind blows from, anticlockwise from east, for the eight main directions
From(u, v) == CASE u > 0 /\ v = 0 -> 180 [] u > 0 /\ v > 0 -> 225 [] u = 0 /\ v > 0 -> 270 [] u < 0 /\ v > 0 -> 315
                [] u < 0 /\ v = 0 -> 0   [] u < 0 /\ v < 0 -> 45  [] u = 0 /\ v < 0 -> 90  [] OTHER -> 135
\* 4 sin|sin| of a multiple of 30 degrees
Sin4(d) == LET k == (d % 360) \div 30
           IN  <<0, 1, 3, 4, 3, 1, 0, -1, -3, -4, -3, -1>>[k + 1]
Cos4(d) == Sin4(d + 90)
Convert(rd, units, n) ==
    CASE rd = "bsose_sic" -> IF units = "fraction" THEN <<n.a>> ELSE <<100 * n.a>>
      [] rd \in {"icenet", "visual_iced"} -> <<100 * n.a>>
      [] rd = "bsose_depth" -> <<-n.a>>
      [] rd = "era5_wind_mag" -> <<Hyp(n.a, n.b)>>
      [] rd = "era5_wind_dir" -> <<From(n.a, n.b)>>
      [] rd = "era5_wave_direction" -> <<-Sin4(n.a), -Cos4(n.a)>>
      [] rd \in {"era5_wind", "northsea_currents", "duacs_currents", "baltic_currents", "sose", "oras5_currents", "reprojected_vector"} -> <<n.a, n.b>>
      [] OTHER -> <<n.a>>
Names(rd) ==
    CASE rd \in {"gebco", "bsose_depth"} -> <<"elevation">>
      [] rd \in {"bsose_sic", "baltic_sic", "modis", "amsr", "visual_iced", "icenet"} -> <<"SIC">>
      [] rd \in {"era5_sig_wave_height", "ecmwf_sig_wave_height"} -> <<"swh">>
      [] rd = "era5_max_wave_height" -> <<"hmax">>
      [] rd = "era5_wave_dir" -> <<"mwd">>
      [] rd = "era5_wave_period" -> <<"mwp">>
      [] rd = "era5_wind_mag" -> <<"wind_mag">>
      [] rd = "era5_wind_dir" -> <<"wind_dir">>
      [] rd = "era5_wind" -> <<"u10", "v10">>
      [] rd = "era5_wave_direction" -> <<"uW", "vW">>
      [] rd = "reprojected_csv" -> <<"depth">>
      [] rd = "reprojected_vector" -> <<"du", "dv">>
      [] OTHER -> <<"uC", "vC">>

\* ---- what is delivered ----------------------------------------------------------
InPeriod(t, per) == t = -1 \/ (per[1] <= t /\ t <= per[2])
\* points on the western and southern edge belong to the region next door
Inside(n, reg, C) == /\ reg.y < n.y /\ n.y <= reg.y + reg.h
                     /\ LET d == (n.x - reg.x) % C IN (IF d = 0 THEN C ELSE d) <= reg.w
Present(rd, files, reg, per, C) ==
    UNION {{n \in f.nodes : ~n.gone /\ Inside(n, reg, C) /\ InPeriod(n.t, per)} : f \in Chosen(rd, files, per)}
Out(n, vs, t, C) == [x |-> Norm(n.x, C), y |-> n.y, t |-> t, v |-> vs]
MeanOf(N, which(_)) == FoldSet(LAMBDA n, acc : acc + which(n), 0, N) \div Cardinality(N)
Delivered(rd, units, files, reg, per, C) ==
    LET P == Present(rd, files, reg, per, C)
    IN  IF rd \in Averaged
        THEN {LET G == {m \in P : m.x = n.x /\ m.y = n.y}
              IN  Out(n, <<MeanOf(G, LAMBDA m : m.a), MeanOf(G, LAMBDA m : m.b)>>, -1, C) : n \in P}
        ELSE {Out(n, Convert(rd, units, n), n.t, C) : n \in P}
=============================================================================
