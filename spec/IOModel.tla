------------------------------- MODULE IOModel -------------------------------
(* Life of a mesh between memory and storage.  The mesh in memory is          *)
(* represented by the sequence of modifications it went through since it came *)
(* into being; writing, exporting and querying leave it alone, reading        *)
(* replaces it by what was written last.                                      *)
(*                                                                            *)
(* Checked: a mesh that is read is the mesh that was written, whatever        *)
(* happened in between; storage changes only by writing.  The histories are   *)
(* emitted and replayed into the real program (IOTrace).                      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOps

VARIABLES mem, doc, ops
vars == <<mem, doc, ops>>
None == <<"none">>

Init == mem = <<"start">> /\ doc = None /\ ops = <<>>

Did(o) == ops' = Append(ops, o)
Modify(o) == mem' = Append(mem, o) /\ doc' = doc /\ Did(o)
Write(o)  == doc' = mem /\ mem' = mem /\ Did(o)
Read(o)   == doc # None /\ mem' = doc /\ doc' = doc /\ Did(o)
Export(o) == UNCHANGED <<mem, doc>> /\ Did(o)

Next == /\ Len(ops) < MaxOps
        /\ \/ \E o \in {"split", "update", "merge"} : Modify(o)
           \/ \E o \in {"write", "save"} : Write(o)
           \/ Read("read")
           \/ \E o \in {"geojson"} : Export(o)
IOSpec == Init /\ [][Next]_vars

\* what is on disk is a mesh that has been in memory: the modifications up to the last write
RECURSIVE ModsUpTo(_, _, _)
ModsUpTo(k, m, d) ==      \* replay of ops[1..k] on (memory, disk)
    IF k = 0 THEN <<m, d>>
    ELSE LET p == ModsUpTo(k - 1, m, d)
             o == ops[k]
         IN  CASE o \in {"split", "update", "merge"} -> <<Append(p[1], o), p[2]>>
               [] o \in {"write", "save"} -> <<p[1], p[1]>>
               [] o = "read" -> <<p[2], p[2]>>
               [] OTHER -> p
ReadBack == ModsUpTo(Len(ops), <<"start">>, None) = <<mem, doc>>
\* writing twice in a row, or reading what was just written, changes nothing
Idempotent == \A k \in 2 .. Len(ops) :
    (ops[k] = "read" /\ ops[k - 1] \in {"write", "save"}) =>
        ModsUpTo(k, <<"start">>, None) = ModsUpTo(k - 1, <<"start">>, None)
Emit == Len(ops) = MaxOps => PrintT(<<"HIST", ToJson(ops)>>)
=============================================================================
