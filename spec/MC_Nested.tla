------------------------------ MODULE MC_Nested ------------------------------
(* Strategies trading from inside their callbacks, frames with market-open  *)
(* indicators, another epic sharing the provider.                           *)
EXTENDS Estrade
Ep(regs) ==
    [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> 1, open |-> <<36001, 0>>,
     close |-> <<36003, 0>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4>>,
     fs |-> <<[unit |-> TICK, q |-> 2, max |-> 2, inds |-> <<<<CANDLE, 1, 2>>, <<BASE, 0, 2>>>>],
              [unit |-> SECOND, q |-> 2, max |-> 2, inds |-> <<<<CANDLE, 1, 2>>>>]>>,
     regs |-> regs]
MCWorld == [ep |-> <<Ep(<<2, 1>>), Ep(<<1>>)>>, nst |-> 2, pv |-> <<TRUE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> e, dt |-> 1, bid |-> b, ask |-> b + 200] : e \in {1, 2}, b \in {100, 500}}
Added == [unit |-> SECOND, q |-> 1, max |-> 3, inds |-> <<<<SMA, 1, 2>>>>]
MCOps == {[k |-> "open", e |-> 1, s |-> 1, dir |-> BUY, q |-> 2],
          [k |-> "open", e |-> 2, s |-> 1, dir |-> SELL, q |-> 2],
          [k |-> "addfs", e |-> 1, fs |-> Added]}
MCNested == {[k |-> "open", e |-> e, s |-> s, dir |-> d, q |-> 1] :
                e \in {1, 2}, s \in {1, 2}, d \in {BUY, SELL}}
            \cup {[k |-> "close", back |-> 0, q |-> <<1>>, req |-> TRUE], [k |-> "closeall", s |-> 1],
                  [k |-> "addfs", e |-> 1, fs |-> Added],
                  [k |-> "tick", e |-> 2, dt |-> 0, bid |-> 700, ask |-> 700]}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
