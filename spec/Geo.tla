--------------------------------- MODULE Geo ---------------------------------
(* Lattice geometry of MeshiPhi cells.                                        *)
(*                                                                            *)
(* A cell is an axis-aligned rectangle on a cylinder: record [x,y,w,h] of     *)
(* integers, x/w measured along the parallel (modulo the circumference C),    *)
(* y/h along the meridian.  One lattice unit is 1/S degree for a dyadic S, so *)
(* every coordinate produced by halving cells is an exact integer.            *)
(*                                                                            *)
(* Directions carry the codes used in the mesh files:                         *)
(*    1 NE   2 E   3 SE   4 S   -1 SW   -2 W   -3 NW   -4 N                    *)
EXTENDS Integers, FiniteSets, Sequences

DirCodes == {1, 2, 3, 4, -1, -2, -3, -4}

R(x, y, w, h) == [x |-> x, y |-> y, w |-> w, h |-> h]

\* ---- contact relations ---------------------------------------------------
TouchE(a, b, C) == (a.x + a.w - b.x) % C = 0     \* a's east edge is on b's west edge
TouchW(a, b, C) == TouchE(b, a, C)
OverX(a, b, C)  == \/ (b.x - a.x) % C < a.w      \* longitude intervals share an interior point
                   \/ (a.x - b.x) % C < b.w
TouchN(a, b)    == a.y + a.h = b.y
TouchS(a, b)    == TouchN(b, a)
OverY(a, b)     == b.y < a.y + a.h /\ b.y + b.h > a.y

\* The set of directions in which b is a neighbour of a.  (A set because on a
\* very narrow global mesh one cell can lie both east and west of another.)
Dirs(a, b, C) ==
    LET e == TouchE(a, b, C)  w == TouchW(a, b, C)  ox == OverX(a, b, C)
        n == TouchN(a, b)     s == TouchS(a, b)     oy == OverY(a, b)
    IN  (IF e /\ n  THEN {1}  ELSE {}) \cup (IF e /\ oy THEN {2}  ELSE {})
   \cup (IF e /\ s  THEN {3}  ELSE {}) \cup (IF s /\ ox THEN {4}  ELSE {})
   \cup (IF w /\ s  THEN {-1} ELSE {}) \cup (IF w /\ oy THEN {-2} ELSE {})
   \cup (IF w /\ n  THEN {-3} ELSE {}) \cup (IF n /\ ox THEN {-4} ELSE {})

\* Cheap necessary condition for Dirs(a,b,C) # {}
MayTouch(a, b) == b.y <= a.y + a.h /\ a.y <= b.y + b.h

Overlap(a, b, C) == OverY(a, b) /\ OverX(a, b, C)

Area(a) == a.w * a.h

\* ---- quarters --------------------------------------------------------------
NWq(c) == R(c.x, c.y + c.h \div 2, c.w \div 2, c.h \div 2)
SWq(c) == R(c.x, c.y, c.w \div 2, c.h \div 2)
\* longitudes are kept canonical: -C/2 <= x < C/2
Norm(x, C) == ((x + C \div 2) % C) - C \div 2
NEq(c, C) == R(Norm(c.x + c.w \div 2, C), c.y + c.h \div 2, c.w \div 2, c.h \div 2)
SEq(c, C) == R(Norm(c.x + c.w \div 2, C), c.y, c.w \div 2, c.h \div 2)
Quarters(c, C) == {NWq(c), NEq(c, C), SWq(c), SEq(c, C)}

\* ---- regions ---------------------------------------------------------------
\* base: [x,y,w,h,nx,ny] : nx * ny initial cells of w * h, south-west corner x,y
RegionArea(base) == base.nx * base.w * base.ny * base.h
InitialCells(base, C) ==
    { R(Norm(base.x + i * base.w, C), base.y + j * base.h, base.w, base.h) :
         i \in 0 .. base.nx - 1, j \in 0 .. base.ny - 1 }

InRegion(c, base, C) ==
    /\ c.y >= base.y /\ c.y + c.h <= base.y + base.ny * base.h
    /\ ((c.x - base.x) % C) + c.w <= base.nx * base.w

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

\* c is one of the cells obtained by halving an initial cell d times
IsDyadic(c, base, C, d) ==
    /\ c.w * Pow2(d) = base.w /\ c.h * Pow2(d) = base.h
    /\ ((c.x - base.x) % C) % c.w = 0
    /\ (c.y - base.y) % c.h = 0
DepthOf(c, base, C, maxd) ==
    IF \E d \in 0 .. maxd : IsDyadic(c, base, C, d)
    THEN CHOOSE d \in 0 .. maxd : IsDyadic(c, base, C, d) ELSE -1

\* The region is covered exactly once by the cells of S (S a set of rects)
Tiles(S, base, C) ==
    /\ \A c \in S : c.w > 0 /\ c.h > 0 /\ InRegion(c, base, C)
    /\ \A a, b \in S : a # b => ~Overlap(a, b, C)
=============================================================================
