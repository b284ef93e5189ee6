------------------------------ MODULE MC_Labels ------------------------------
(* References, metadata and statuses of trades and closes: given or not,    *)
(* changed in place, answered by two providers at any time, well or not.    *)
EXTENDS Estrade
Ep(pv) == [zone |-> "UTC", tz |-> <<<<-30000, 0, 0>>>>, pv |-> pv, open |-> <<0, 0>>,
           close |-> <<86399, 999999>>, hol |-> <<>>, days |-> <<0, 1, 2, 3, 4, 5, 6>>,
           fs |-> <<>>, regs |-> <<>>]
MCWorld == [ep |-> <<Ep(1), Ep(2)>>, nst |-> 1, pv |-> <<TRUE, FALSE>>, gated |-> TRUE]
MCStart == <<18262, 36000, 0>>
MCTicks == {}
L(r, m, st) == [ref |-> r, meta |-> m, st |-> st]
MCOps == {[k |-> "open", e |-> x[1], s |-> x[2], dir |-> x[3], q |-> x[4], lab |-> x[5]] :
             x \in {<<1, 1, BUY, 2, L(1, 0, CREATED)>>, <<1, 1, SELL, 3, L(0, 5, PENDING)>>,
                    <<2, 0, SELL, 3, L(2, 6, CONFIRMED)>>}}
         \cup {[k |-> "close", back |-> 0, q |-> <<1>>, req |-> r, lab |-> l] :
                  r \in BOOLEAN, l \in {L(3, 7, CREATED), L(0, 0, CONFIRMED)}}
         \cup {[k |-> "note", back |-> b, close |-> c, v |-> 9] : b \in {0, 1}, c \in BOOLEAN}
         \cup {[k |-> "finish", fail |-> f] : f \in BOOLEAN}
         \cup {[k |-> "closeall", s |-> 1, q |-> <<1>>]}
MCNested == {}
ASSUME PrintT(<<"WORLD", ToJson(World)>>)
=============================================================================
