----------------------------- MODULE MC_Refusals -----------------------------
(* Orders that cannot be taken - a direction that is none, a moment without *)
(* a timezone - before, between and after the others, on a backtest epic    *)
(* and on an epic with another provider, also from inside a callback.       *)
EXTENDS Estrade
Ep(pv) == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> pv, open |-> <<0, 0>>,
           close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
           fs |-> <<>>, regs |-> IF pv = 1 THEN <<1>> ELSE <<>>]
MCWorld == [ep |-> <<Ep(1), Ep(2)>>, nst |-> 1, pv |-> <<TRUE, FALSE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> 1, dt |-> 1, bid |-> 100, ask |-> 200], [e |-> 2, dt |-> 0, bid |-> 700, ask |-> 900]}
No(what, e, s, back, q) == [k |-> "refuse", what |-> what, e |-> e, s |-> s, back |-> back, q |-> q]
MCOps == {[k |-> "open", e |-> x[1], s |-> x[2], dir |-> x[3], q |-> x[4]] :
             x \in {<<1, 1, BUY, 2>>, <<1, 1, SELL, 1>>, <<2, 1, SELL, 3>>}}
         \cup {[k |-> "close", back |-> 0, q |-> q, req |-> TRUE] : q \in {<<>>, <<1>>}}
         \cup {No("direction", e, s, 0, <<1>>) : e \in {1, 2}, s \in {0, 1}}
         \cup {No("opened", 1, 1, 0, <<2>>), No("closed", 1, 0, 0, <<>>), No("closed", 1, 0, 1, <<1>>),
               No("moment", 1, 0, 0, <<>>)}
MCNested == {No("direction", 1, 1, 0, <<2>>), No("closed", 1, 0, 0, <<>>),
             [k |-> "open", e |-> 1, s |-> 1, dir |-> SELL, q |-> 1]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
