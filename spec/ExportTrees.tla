----------------------------- MODULE ExportTrees -----------------------------
(* Writes the enumerated trees to a file, to be rendered by the real code.   *)
EXTENDS Trees, Json, IOUtils, SequencesExt
Out == SetToSeq({Label(t) : t \in Structures})
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Out) |-> [ast |-> Out[i]]])
=============================================================================
