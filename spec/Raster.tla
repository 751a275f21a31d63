------------------------------- MODULE Raster -------------------------------
(* The raster image of a mesh: rows x cols pixels over the mesh's region,     *)
(* the first row in the north, the first column in the west.                  *)
(* Everything is exact: positions are compared after multiplication with the  *)
(* number of half pixels.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* reg: the region [x, y, w, h] in lattice units (w eastwards from x, modulo C)
\* centre of pixel (r, c), relative to the region's south-west corner, in units of
\* 1/(2 cols) eastwards and 1/(2 rows) northwards
CentreX(c, cols, reg) == (2 * c - 1) * reg.w
CentreY(r, rows, reg) == (2 * (rows - r) + 1) * reg.h

OffX(cell, reg, C) == (cell.x - reg.x) % C
\* the pixel's centre lies in the closed / the open cell
ColIn(cell, reg, C, cols, c)  == LET a == OffX(cell, reg, C) * 2 * cols  p == CentreX(c, cols, reg) IN a <= p /\ p <= a + cell.w * 2 * cols
ColOpen(cell, reg, C, cols, c) == LET a == OffX(cell, reg, C) * 2 * cols  p == CentreX(c, cols, reg) IN a < p /\ p < a + cell.w * 2 * cols
RowIn(cell, reg, rows, r)  == LET a == (cell.y - reg.y) * 2 * rows  p == CentreY(r, rows, reg) IN a <= p /\ p <= a + cell.h * 2 * rows
RowOpen(cell, reg, rows, r) == LET a == (cell.y - reg.y) * 2 * rows  p == CentreY(r, rows, reg) IN a < p /\ p < a + cell.h * 2 * rows

Touched(S, reg, C, rows, cols, r, c) == {k \in S : RowIn(k, reg, rows, r) /\ ColIn(k, reg, C, cols, c)}
Holder(S, reg, C, rows, cols, r, c)  == {k \in S : RowOpen(k, reg, rows, r) /\ ColOpen(k, reg, C, cols, c)}

\* what a pixel may show: the value of the cell holding its centre; on cell edges the
\* value of a touching cell or nothing; outside all cells nothing (-1)
MayShow(S, reg, C, rows, cols, r, c) ==
    LET h == Holder(S, reg, C, rows, cols, r, c)
    IN  IF h # {} THEN {k.v : k \in h}
        ELSE {-1} \cup {k.v : k \in Touched(S, reg, C, rows, cols, r, c)}

\* ---- reprojected images -------------------------------------------------------
\* p = <<px, py>> : where the pixel's centre lies, in 1/Q lattice units from the region's
\* south-west corner (px may be anything).  Resampling may be off by one source pixel.
NearCells(S, reg, C, rows, cols, p, Q) ==
    {k \in S : /\ OffX(k, reg, C) * Q * cols - reg.w * Q <= p[1] * cols
               /\ p[1] * cols <= (OffX(k, reg, C) + k.w) * Q * cols + reg.w * Q
               /\ (k.y - reg.y) * Q * rows - reg.h * Q <= p[2] * rows
               /\ p[2] * rows <= (k.y - reg.y + k.h) * Q * rows + reg.h * Q}
WellInside(reg, rows, cols, p, Q) ==
    /\ p[1] * cols > reg.w * Q /\ p[1] * cols < reg.w * Q * (cols - 1)
    /\ p[2] * rows > reg.h * Q /\ p[2] * rows < reg.h * Q * (rows - 1)
=============================================================================
