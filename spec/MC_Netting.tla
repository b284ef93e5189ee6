----------------------------- MODULE MC_Netting ------------------------------
(* Two epics sharing the backtest provider, two strategies and trades       *)
(* without strategy: who offsets whom.                                      *)
EXTENDS Estrade
Ep(pv) == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> pv, open |-> <<0, 0>>,
           close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
           fs |-> <<>>, regs |-> <<1, 2>>]
MCWorld == [ep |-> <<Ep(1), Ep(1)>>, nst |-> 2, pv |-> <<TRUE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> 1, dt |-> 0, bid |-> 100, ask |-> 200], [e |-> 2, dt |-> 0, bid |-> 700, ask |-> 700]}
MCOps == {[k |-> "open", e |-> x[1], s |-> x[2], dir |-> x[3], q |-> x[4]] :
             x \in {<<1, 1, BUY, 2>>, <<1, 1, SELL, 3>>, <<1, 2, BUY, 1>>, <<1, 0, SELL, 5>>,
                    <<2, 1, SELL, 3>>, <<2, 1, BUY, 3>>, <<1, 0, BUY, 1>>}}
         \cup {[k |-> "float", e |-> 1, s |-> 1, dir |-> SELL, q |-> 1]}
         \cup {[k |-> "closeall", s |-> 1]}
MCNested == {}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
