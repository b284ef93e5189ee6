---------------------------- MODULE MC_Providers -----------------------------
(* A backtest epic and an epic with another provider, one strategy trading  *)
(* on both.                                                                 *)
EXTENDS Estrade
Ep(pv) == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> pv, open |-> <<0, 0>>,
           close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
           fs |-> <<>>, regs |-> <<1>>]
MCWorld == [ep |-> <<Ep(1), Ep(2)>>, nst |-> 1, pv |-> <<TRUE, FALSE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> 1, dt |-> 1, bid |-> 100, ask |-> 200], [e |-> 2, dt |-> 0, bid |-> 700, ask |-> 900]}
MCOps == {[k |-> "open", e |-> x[1], s |-> x[2], dir |-> x[3], q |-> x[4]] :
             x \in {<<1, 1, BUY, 2>>, <<1, 1, SELL, 2>>, <<2, 1, SELL, 3>>, <<2, 1, BUY, 3>>, <<2, 0, BUY, 1>>}}
         \cup {[k |-> "close", back |-> b, q |-> q, req |-> r] :
                b \in {0, 1}, q \in {<<>>, <<1>>}, r \in BOOLEAN}
         \cup {[k |-> "closeall", s |-> 1]}
MCNested == {}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
