------------------------------ MODULE MC_Queries -----------------------------
(* Listings, aggregates, reports and closing all over trades of two epics.  *)
EXTENDS Estrade
Ep(pv) == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> pv, open |-> <<0, 0>>,
           close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
           fs |-> <<>>, regs |-> <<1>>]
MCWorld == [ep |-> <<Ep(1), Ep(2)>>, nst |-> 2, pv |-> <<TRUE, FALSE>>, gated |-> FALSE]
MCStart == <<18262, 36000, 0>>
MCTicks == {[e |-> 1, dt |-> 1, bid |-> 1000000, ask |-> 1000000],
            [e |-> 1, dt |-> 1, bid |-> 1005000, ask |-> 1005000],
            [e |-> 1, dt |-> 1, bid |-> 996000, ask |-> 996000],
            [e |-> 2, dt |-> 0, bid |-> 700, ask |-> 30900]}
MCOps == {[k |-> "open", e |-> x[1], s |-> x[2], dir |-> x[3], q |-> x[4]] :
             x \in {<<1, 1, BUY, 2>>, <<1, 1, SELL, 1>>, <<2, 1, SELL, 3>>, <<1, 2, BUY, 1>>}}
         \cup {[k |-> "close", back |-> 1, q |-> q, req |-> TRUE] : q \in {<<>>, <<1>>}}
         \cup {[k |-> "closeall", s |-> 1], [k |-> "closeall", s |-> 1, q |-> <<1>>]}
MCNested == {}
\* questions asked at the end of every behaviour (they change nothing)
MCFinal ==
    <<[k |-> "trades", s |-> 1, eps |-> <<>>, oo |-> FALSE, after |-> <<>>],
      [k |-> "trades", s |-> 1, eps |-> <<>>, oo |-> TRUE, after |-> <<>>],
      [k |-> "trades", s |-> 1, eps |-> <<<<1>>>>, oo |-> FALSE, after |-> <<<<18262, 36002, 0>>>>],
      [k |-> "trades", s |-> 1, eps |-> <<<<2>>>>, oo |-> TRUE, after |-> <<<<18262, 36001, 0>>>>],
      [k |-> "trades", s |-> 1, eps |-> <<<<>>>>, oo |-> FALSE, after |-> <<>>],
      [k |-> "trades", s |-> 2, eps |-> <<<<1, 2>>>>, oo |-> TRUE, after |-> <<>>],
      [k |-> "figures", s |-> 1, ids |-> <<>>, form |-> "list"],
      [k |-> "figures", s |-> 2, ids |-> <<<<1>>>>, form |-> "generator"],
      [k |-> "figures", s |-> 1, ids |-> <<<<>>>>, form |-> "list"],
      [k |-> "report", sts |-> <<2, 1>>, details |-> TRUE],
      [k |-> "report", sts |-> <<1>>, details |-> FALSE]>>
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
ASSUME PrintT(<<"FINAL", ToJson(MCFinal)>>)
=============================================================================
