----------------------------- MODULE MC_Dispatch -----------------------------
(* Two epics, three strategies: market hours, refused ticks, stops and      *)
(* pauses, also from inside callbacks and for other strategies.             *)
EXTENDS Estrade
Ep(regs, tick) ==
    [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> 1, open |-> <<36001, 0>>,
     close |-> <<36003, 0>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4>>,
     fs |-> <<>>, regs |-> regs]
MCWorld == [ep |-> <<Ep(<<2, 1>>, 1), Ep(<<1, 3>>, 2)>>, nst |-> 3, pv |-> <<TRUE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> e, dt |-> d, bid |-> 100, ask |-> 100] : e \in {1, 2}, d \in {-1, 0, 1, 3}}
MCOps == {[k |-> "stop", s |-> 1, on |-> b] : b \in BOOLEAN}
         \cup {[k |-> "pause", s |-> s, dt |-> d] : s \in {1, 2}, d \in {0, 2}}
         \cup {[k |-> "unpause", s |-> 1], [k |-> "reg", e |-> 1, s |-> 3]}
MCNested == {[k |-> "stop", s |-> 1, on |-> TRUE], [k |-> "pause", s |-> 1, dt |-> 1],
             [k |-> "stop", s |-> 2, on |-> TRUE], [k |-> "unpause", s |-> 3],
             [k |-> "reg", e |-> 1, s |-> 3]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
