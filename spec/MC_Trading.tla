----------------------------- MODULE MC_Trading ------------------------------
(* One epic, one strategy, the backtest provider: opening, netting, partial *)
(* and repeated closes, price updates, ticks at profit and at loss.         *)
EXTENDS Estrade
MCWorld ==
    [ep |-> <<[zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> 1, open |-> <<0, 0>>,
               close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
               fs |-> <<>>, regs |-> <<>>]>>,
     nst |-> 1, pv |-> <<TRUE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> 1, dt |-> 1, bid |-> p[1], ask |-> p[2]] :
                p \in {<<100, 200>>, <<300, 600>>, <<-200, 0>>}}
MCOps == {[k |-> "open", e |-> 1, s |-> 1, dir |-> d[1], q |-> d[2]] :
                d \in {<<BUY, 2>>, <<BUY, 3>>, <<SELL, 4>>}}
         \cup {[k |-> "close", back |-> b, q |-> q, req |-> TRUE] :
                b \in {0, 1}, q \in {<<>>, <<1>>, <<3>>}}
         \cup {[k |-> "close", back |-> 0, q |-> <<0>>, req |-> FALSE],
               [k |-> "update", back |-> 0, v |-> 500]}
MCNested == {}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
