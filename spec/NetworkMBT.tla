------------------------------ MODULE NetworkMBT ------------------------------
(* Histories of line state changes on networks of 2 to 5 areas, printed as JSON
   for replay in the code (harness/drivers/network.py). *)
EXTENDS Network, Json, TLC, IOUtils
VARIABLES net, hist
Depth == atoi(IOEnv.DEPTH)
Adm == {0, 1, 40, 84, 240}
Topologies == <<
  [n |-> 2, p |-> <<<<1, 2>>>>], [n |-> 2, p |-> <<<<2, 1>>, <<1, 2>>>>],
  [n |-> 3, p |-> <<<<1, 2>>, <<2, 3>>>>], [n |-> 3, p |-> <<<<3, 1>>, <<3, 2>>, <<1, 2>>>>],
  [n |-> 3, p |-> <<<<1, 2>>, <<1, 3>>, <<2, 1>>, <<3, 2>>>>],
  [n |-> 4, p |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 1>>>>], [n |-> 4, p |-> <<<<1, 4>>, <<2, 4>>, <<3, 4>>>>],
  [n |-> 4, p |-> <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<4, 2>>, <<3, 4>>>>],
  [n |-> 5, p |-> <<<<1, 2>>, <<3, 2>>, <<4, 3>>, <<5, 4>>, <<1, 5>>>>],
  [n |-> 5, p |-> <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 3>>, <<4, 5>>, <<2, 5>>>>] >>
Lines(t, b) == [k \in 1..Len(t.p) |-> [fr |-> t.p[k][1], to |-> t.p[k][2], b |-> b]]
MInit == /\ hist = <<>>
         /\ \E t \in 1..Len(Topologies), b \in {40, 200} : \E nr \in 1..Topologies[t].n :
              net = [n |-> Topologies[t].n, nr |-> nr, base |-> Lines(Topologies[t], b), lines |-> Lines(Topologies[t], b)]
MNext == \E k \in 1..Len(net.lines), b \in Adm :
           /\ b # net.lines[k].b
           /\ LET ls == [net.lines EXCEPT ![k].b = b]
              IN /\ Connected(net.n, ls)
                 /\ net' = [net EXCEPT !.lines = ls]
           /\ hist' = Append(hist, <<k, b>>)
MSpec == MInit /\ [][MNext]_<<net, hist>>
Emit == TLCGet("level") < Depth \/ PrintT("BEHAVIOUR " \o ToJson([n |-> net.n, nr |-> net.nr, base |-> net.base, steps |-> hist]))
=============================================================================
