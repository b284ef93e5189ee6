----------------------------- MODULE MC_Requests -----------------------------
(* Provider requests that take their time: opens and closes go on while     *)
(* earlier requests are unfinished; requests finish in any order, well or   *)
(* not.                                                                     *)
EXTENDS Estrade
Ep(pv) == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> pv, open |-> <<0, 0>>,
           close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
           fs |-> <<>>, regs |-> <<>>]
MCWorld == [ep |-> <<Ep(1), Ep(2)>>, nst |-> 1, pv |-> <<TRUE, FALSE>>, gated |-> TRUE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> 1, dt |-> 1, bid |-> 100, ask |-> 200]}
MCOps == {[k |-> "open", e |-> x[1], s |-> 1, dir |-> x[2], q |-> x[3]] :
             x \in {<<1, BUY, 2>>, <<1, SELL, 3>>, <<2, SELL, 3>>}}
         \cup {[k |-> "close", back |-> 0, q |-> q, req |-> TRUE] : q \in {<<>>, <<1>>}}
         \cup {[k |-> "closeall", s |-> 1]}
         \cup {[k |-> "finish", fail |-> f] : f \in BOOLEAN}
MCNested == {}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
