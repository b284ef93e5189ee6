----------------------------- MODULE MC_Failing ------------------------------
(* Callbacks that fail, at any point of a tick, before or after having      *)
(* traded, stopped somebody or ticked another epic.                         *)
EXTENDS Estrade
Ep(regs) ==
    [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> 1, open |-> <<36001, 0>>,
     close |-> <<36002, 0>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4>>,
     fs |-> <<[unit |-> TICK, q |-> 2, max |-> 2, inds |-> <<<<CANDLE, 1, 2>>>>]>>, regs |-> regs]
MCWorld == [ep |-> <<Ep(<<2, 1>>), Ep(<<1, 3>>)>>, nst |-> 3, pv |-> <<TRUE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> e, dt |-> 1, bid |-> 300 * e, ask |-> 300 * e + 100] : e \in {1, 2}}
MCOps == {[k |-> "open", e |-> 1, s |-> 1, dir |-> BUY, q |-> 2], [k |-> "unpause", s |-> 1]}
MCNested == {[k |-> "raise"], [k |-> "tick", e |-> 2, dt |-> 0, bid |-> 700, ask |-> 900],
             [k |-> "tick", e |-> 1, dt |-> 1, bid |-> 500, ask |-> 500],
             [k |-> "tick", e |-> 2, dt |-> -1, bid |-> 700, ask |-> 900],
             [k |-> "open", e |-> 1, s |-> 2, dir |-> SELL, q |-> 1],
             [k |-> "pause", s |-> 1, dt |-> 1]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
