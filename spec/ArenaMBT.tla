------------------------------ MODULE ArenaMBT ------------------------------
(* Behaviours of EventArena for replay in the real code: simulation mode prints
   each history of operations as JSON when it reaches the depth. *)
EXTENDS EventArena, Json, TLC, IOUtils
VARIABLE hist
Depth == atoi(IOEnv.DEPTH)
MInit == AInit /\ hist = <<>>
MNext ==
  \/ RemoveHead /\ hist' = Append(hist, [op |-> "take", t |-> last'[1], k |-> last'[2]])
  \/ \E t \in 0..MaxTime, k \in Kinds :
        InsertAt(t, k) /\ hist' = Append(hist, [op |-> "file", t |-> t, k |-> k])
MSpec == MInit /\ [][MNext]_<<avars, hist>>
Emit == TLCGet("level") < Depth \/ PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
