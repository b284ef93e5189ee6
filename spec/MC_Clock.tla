------------------------------ MODULE MC_Clock -------------------------------
(* Paris and New York around the repeated hour of 2020-10-25 in Paris: tick *)
(* order, market hours, events and pauses by instants, not by wall clocks.  *)
EXTENDS Estrade
Paris == <<<<18350, 3600, 7200>>, <<18560, 3600, 3600>>>>
NewYork == <<<<18329, 25200, -14400>>, <<18567, 21600, -18000>>>>
Ep(zone, tz, o, c, hol) ==
    [zone |-> zone, tz |-> tz, pv |-> 1, open |-> o, close |-> c, hol |-> hol,
     days |-> <<5, 6>>, fs |-> <<>>, regs |-> <<1>>]
MCWorld == [ep |-> <<Ep("Europe/Paris", Paris, <<8100, 0>>, <<9900, 0>>, <<>>),
                     Ep("America/New_York", NewYork, <<73800, 0>>, <<86399, 0>>, <<<<2020, 10, 25>>>>)>>,
            nst |-> 1, pv |-> <<TRUE>>, gated |-> FALSE]
\* 2020-10-25T00:10:00Z: 02:10 in Paris, 20:10 on the day before in New York
MCStart == <<18560, 600, 0>>
MCTicks == {[e |-> e, dt |-> d, bid |-> 100, ask |-> 100] : e \in {1, 2}, d \in {0, -1800, 1800, 3600, 14400}}
\* the hours, days and holidays may change; the flag does not until the next tick
MCOps == {[k |-> "pause", s |-> 1, dt |-> d] : d \in {1800, 3600}}
         \cup {[k |-> "cfg", e |-> 1, open |-> x[1], close |-> x[2], days |-> x[3], hol |-> x[4]] :
                  x \in {<<<<8100, 0>>, <<9900, 0>>, <<6>>, <<<<2020, 10, 24>>>>>>,
                         <<<<0, 0>>, <<7800, 0>>, <<0, 6>>, <<>>>>,
                         <<<<0, 0>>, <<86399, 0>>, <<>>, <<>>>>}}
MCNested == {}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
