------------------------------ MODULE FrameModel ------------------------------
(***************************************************************************)
(* Frame sets of one epic as a state machine: ticks arrive, indicators are *)
(* attached.  The operators of Frames step the retained frames; the        *)
(* properties below are stated over the whole sequence of ticks, without   *)
(* those operators: which ticks a frame holds, where it starts, what its   *)
(* indicators have seen, follows from the ticks alone.                     *)
(***************************************************************************)
EXTENDS Frames, Json

CONSTANTS
    World,    \* [zone, tz, open, close, days, hol, fs : sequence of [unit, q, max, inds]]
    Start,    \* instant of a first tick with dt = 0
    TickSet,  \* set of [dt (seconds after the previous tick), v (cents)]
    AttachSet,\* set of [at (frame set), ind <<kind, gated, p>>]
    Depth, Emit

VARIABLES fss, ticks, att, now, nops, hist
vars == <<fss, ticks, att, now, nops, hist>>
Seen == <<fss, ticks, att, nops>>

WInd(x) == [kind |-> x[1], gated |-> x[2] = 1, p |-> x[3]]
RECURSIVE WAttach(_, _)
WAttach(fs, inds) == IF inds = <<>> THEN fs ELSE WAttach(Attach(fs, WInd(Head(inds))), Tail(inds))
Cfg == [open |-> World.open, close |-> World.close, hol |-> World.hol, days |-> World.days]
Tz == World.tz
Sets == 1..Len(World.fs)

Init == /\ fss = [j \in Sets |-> WAttach(NewFrameSet(World.fs[j].unit, World.fs[j].q, World.fs[j].max),
                                         World.fs[j].inds)]
        /\ att = [j \in Sets |-> [k \in 1..Len(World.fs[j].inds) |-> 0]]
        /\ ticks = <<>> /\ now = Start /\ nops = 0 /\ hist = <<>>

Tell == (Emit = 1 \/ (Emit = 2 /\ nops' = Depth)) => PrintT(<<"HIST", ToJson(hist')>>)

(***************************************************************************)
(* Which ticks belong together, from the ticks alone: p is the start of    *)
(* the period that contains the tick, per timeframe set; b the tick that   *)
(* begins its frame; r the ticks of the day so far.                        *)
(***************************************************************************)
Timed(j) == World.fs[j].unit # TICK
WithFrames(t) ==
    LET n == Len(ticks)
        p == [j \in Sets |-> IF Timed(j) THEN FirstInstant(Tz, GridStart(World.fs[j].unit, World.fs[j].q, t.w))
                             ELSE <<>>]
        newday == n = 0 \/ t.w[1] > ticks[n].w[1]
        r == IF newday THEN 1 ELSE ticks[n].r + 1
        begins(j) == IF Timed(j) THEN n = 0 \/ p[j] # ticks[n].p[j]
                     ELSE (r - 1) % World.fs[j].q = 0
    IN  Append(ticks, [id |-> t.id, v |-> t.v, inst |-> t.inst, w |-> t.w, open |-> t.open, p |-> p,
                       r |-> r, b |-> [j \in Sets |-> IF begins(j) THEN t.id ELSE ticks[n].b[j]]])

TickIn(x) ==
    LET at == AddSec(now, x.dt)
        w == Local(Tz, at)
        t == [id |-> Len(ticks) + 1, v |-> x.v, inst |-> at, w |-> w]
        open == MarketOpenAt(Cfg, w)
    IN  /\ fss' = [j \in Sets |-> FrameTick(fss[j], t, open, Tz)]
        /\ ticks' = TLCEval(WithFrames([id |-> t.id, v |-> x.v, inst |-> at, w |-> w, open |-> open]))
        /\ now' = at
        /\ hist' = Append(hist, [k |-> "tick", inst |-> at, v |-> x.v])
        /\ UNCHANGED att

AttachIn(a) ==
    LET ind == WInd(a.ind)
    IN  /\ Len(fss[a.at].inds) < 4
        /\ fss' = IF Attachable(fss[a.at], ind) THEN [fss EXCEPT ![a.at] = Attach(@, ind)] ELSE fss
        /\ att' = IF Attachable(fss[a.at], ind) THEN [att EXCEPT ![a.at] = Append(@, Len(ticks))] ELSE att
        /\ hist' = Append(hist, [k |-> "attach", at |-> a.at, ind |-> a.ind])
        /\ UNCHANGED <<ticks, now>>

Next == /\ nops < Depth
        /\ nops' = nops + 1
        /\ ((\E x \in TickSet : TickIn(x)) \/ (\E a \in AttachSet : AttachIn(a)))
        /\ Tell

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Which ticks belong to which frame, from the ticks alone                 *)
(***************************************************************************)
N == Len(ticks)
PStart(j, k) == ticks[k].p[j]
FirstOf(j, k) == ticks[k].b[j]
Begins(j, k) == FirstOf(j, k) = k
\* the ticks in the frame of tick k
Mates(j, k) == {i \in 1..N : FirstOf(j, i) = FirstOf(j, k)}
\* the starts of all frames with ticks of their own, in order
Begun(j) == {k \in 1..N : Begins(j, k)}

Fr(j) == fss[j].frames
\* the frames of set j that were not made to fill a gap, and those that were
Own(j) == {m \in 1..Len(Fr(j)) : \E k \in Begun(j) :
             IF Timed(j) THEN PStart(j, k) = Fr(j)[m].s ELSE ticks[k].inst = Fr(j)[m].s /\ Fr(j)[m].f = k}
Filled(j) == (1..Len(Fr(j))) \ Own(j)
\* the first tick of frame m in Own(j)
Head1(j, m) == IF Timed(j) THEN CHOOSE k \in Begun(j) : PStart(j, k) = Fr(j)[m].s ELSE Fr(j)[m].f
\* the latest tick before the period of frame m
Before(j, m) == MaxSet({k \in 1..N : Lt(ticks[k].inst, Fr(j)[m].s)})
\* the ticks that frame m holds, for a filled one the single tick carried into it
Holds(j, m) == IF m \in Own(j) THEN Mates(j, Head1(j, m)) ELSE {Before(j, m)}
\* the tick at whose arrival a tick was taken into frame m, whether or not the market was open
TakenAt(j, m, k) == IF m \in Own(j) THEN k ELSE Before(j, m) + 1

P19_Contiguous == \A j \in Sets : Timed(j) => \A m \in 1..Len(Fr(j)) :
    /\ Lt(Fr(j)[m].s, Fr(j)[m].e[1])
    /\ m < Len(Fr(j)) => Fr(j)[m].e[1] = Fr(j)[m + 1].s
P19_Periods == \A j \in Sets : Timed(j) => \A m \in Own(j) :
    \A k \in Mates(j, Head1(j, m)) :
        ~Lt(ticks[k].inst, Fr(j)[m].s) /\ Lt(ticks[k].inst, Fr(j)[m].e[1])
P19_Filled == \A j \in Sets : Timed(j) => \A m \in Filled(j) :
    /\ ~\E k \in 1..N : ~Lt(ticks[k].inst, Fr(j)[m].s) /\ Lt(ticks[k].inst, Fr(j)[m].e[1])
    /\ Fr(j)[m].n = 1 /\ Fr(j)[m].f = Before(j, m) /\ Fr(j)[m].a = Before(j, m)
P19_Latest == \A j \in Sets : (Timed(j) /\ N > 0) =>
    LastOf(Fr(j)).s = PStart(j, N) /\ Len(Fr(j)) \in Own(j)

P21_Sizes == \A j \in Sets : ~Timed(j) => \A m \in 1..Len(Fr(j)) :
    /\ m \in Own(j)
    /\ Fr(j)[m].n <= World.fs[j].q
    /\ (m < Len(Fr(j)) /\ Fr(j)[m].n < World.fs[j].q) =>
           ticks[Fr(j)[m].a].w[1] < ticks[Fr(j)[m + 1].f].w[1]
    /\ ticks[Fr(j)[m].f].w[1] = ticks[Fr(j)[m].a].w[1]
P21_Each == \A j \in Sets : ~Timed(j) => \A m \in 1..(Len(Fr(j)) - 1) :
    Fr(j)[m + 1].f = Fr(j)[m].a + 1

P22_Described == \A j \in Sets : \A m \in 1..Len(Fr(j)) :
    LET f == Fr(j)[m]
        H == Holds(j, m)
    IN  /\ f.tks = H /\ f.n = Cardinality(H)
        /\ f.f = MinSet(H) /\ f.a = MaxSet(H)
        /\ f.hv = MaxSet({ticks[k].v : k \in H}) /\ f.lv = MinSet({ticks[k].v : k \in H})
        /\ f.fv = ticks[f.f].v /\ f.av = ticks[f.a].v
P22_Final == [][\A j \in Sets : \A m \in 1..(Len(fss[j].frames) - 1) :
    \A x \in 1..Len(fss'[j].frames) :
        (fss'[j].frames[x].s = fss[j].frames[m].s /\ fss'[j].frames[x].f = fss[j].frames[m].f) =>
        /\ fss'[j].frames[x].tks = fss[j].frames[m].tks
        /\ fss'[j].frames[x].n = fss[j].frames[m].n]_vars

P23_Bound == \A j \in Sets : N > 0 => Len(Fr(j)) \in 1..World.fs[j].max
\* as many frames as the bound allows: a frame is only missing when the set is full
P23_Recent == \A j \in Sets : N > 0 =>
    (Len(Fr(j)) < World.fs[j].max =>
        IF Timed(j) THEN Fr(j)[1].s = PStart(j, 1) ELSE Fr(j)[1].f = 1)

\* the ticks indicator i of set j has seen in frame m
EligibleTicks(j, m, i) ==
    {k \in Holds(j, m) : /\ TakenAt(j, m, k) > att[j][i]
                         /\ ~fss[j].inds[i].gated \/ ticks[TakenAt(j, m, k)].open}
P24_Eligible == \A j \in Sets : \A m \in 1..Len(Fr(j)) : \A i \in 1..Len(fss[j].inds) :
    LET E == EligibleTicks(j, m, i)
    IN  /\ HasVal(Fr(j)[m], i) = (E # {})
        /\ E # {} => LET x == Fr(j)[m].iv[i][1]
                     IN  /\ x.tks = E /\ x.f = MinSet(E) /\ x.a = MaxSet(E)
                         /\ x.hv = MaxSet({ticks[k].v : k \in E})
                         /\ x.lv = MinSet({ticks[k].v : k \in E})
\* an indicator never depends on the other indicators of its set
P24_Alone == \A j \in Sets : \A m \in 1..Len(Fr(j)) :
    \A a, b \in 1..Len(fss[j].inds) :
        (att[j][a] = att[j][b] /\ fss[j].inds[a].gated = fss[j].inds[b].gated) =>
            /\ HasVal(Fr(j)[m], a) = HasVal(Fr(j)[m], b)
            /\ HasVal(Fr(j)[m], a) => Fr(j)[m].iv[a][1].tks = Fr(j)[m].iv[b][1].tks

\* candles, computed
Heik(j, i, m, prev) ==
    LET x == Fr(j)[m].iv[i][1]
        a == MinSet(RoundSet(x.fv + x.hv + x.lv + x.av, 4))
        o == IF prev = <<>> THEN x.fv ELSE MinSet(RoundSet(prev[1].o + prev[1].a, 2))
    IN  [o |-> o, a |-> a, h |-> Max2(x.hv, Max2(o, a)), l |-> Min2(x.lv, Min2(o, a))]
RECURSIVE HeikSeq(_, _, _)
HeikSeq(j, i, m) ==
    LET p == PrevIdx(Fr(j), m, i)
    IN  Heik(j, i, m, IF p = 0 THEN <<>> ELSE <<HeikSeq(j, i, p)>>)
Kind(j, i, kinds) == fss[j].inds[i].kind \in kinds
Sane(x) == /\ x.l <= x.o /\ x.o <= x.h /\ x.l <= x.a /\ x.a <= x.h
           /\ x.h - x.l = Abs(x.o - x.a) + (x.h - Max2(x.o, x.a)) + (Min2(x.o, x.a) - x.l)
P25_Sane == \A j \in Sets : \A m \in 1..Len(Fr(j)) : \A i \in 1..Len(fss[j].inds) :
    (Kind(j, i, {CANDLE}) /\ HasVal(Fr(j)[m], i)) =>
        LET x == Fr(j)[m].iv[i][1] IN Sane([o |-> x.fv, a |-> x.av, h |-> x.hv, l |-> x.lv])
P26_Sane == \A j \in Sets : \A m \in 1..Len(Fr(j)) : \A i \in 1..Len(fss[j].inds) :
    (Kind(j, i, {HEIKIN}) /\ HasVal(Fr(j)[m], i)) => Sane(HeikSeq(j, i, m))

(***************************************************************************)
(* Closing values of all the frames there ever were, from the ticks alone  *)
(***************************************************************************)
\* for a timed set: the period starts from the first tick's to the latest one's
RECURSIVE PeriodsFrom(_, _, _)
PeriodsFrom(j, s, last) ==
    IF s = last THEN <<s>>
    ELSE <<s>> \o PeriodsFrom(j, EndOf([unit |-> World.fs[j].unit, q |-> World.fs[j].q], Tz, s), last)
AllStarts(j) == IF N = 0 THEN <<>>
                ELSE IF Timed(j) THEN PeriodsFrom(j, PStart(j, 1), PStart(j, N))
                ELSE [x \in 1..Cardinality(Begun(j)) |->
                        CHOOSE k \in Begun(j) : Cardinality({y \in Begun(j) : y <= k}) = x]
\* the value of the last tick taken before the x-th frame was over
CloseAt(j, starts, x) ==
    IF x = Len(starts) THEN ticks[N].v
    ELSE IF Timed(j) THEN ticks[MaxSet({k \in 1..N : Lt(ticks[k].inst, starts[x + 1])})].v
    ELSE ticks[starts[x + 1] - 1].v
AllCloses(j) == LET st == AllStarts(j) IN TLCEval([x \in 1..Len(st) |-> CloseAt(j, st, x)])

FromStart(j, i) == att[j][i] = 0 /\ ~fss[j].inds[i].gated
P27_Closes == \A j \in Sets : \A i \in 1..Len(fss[j].inds) :
    (Kind(j, i, {SMA}) /\ FromStart(j, i) /\ N > 0) =>
        LET x == LastOf(Fr(j)).iv[i][1]
        IN  Append(x.cl, LastOf(Fr(j)).av) = Suffix(AllCloses(j), fss[j].inds[i].p)
P28_Changes == \A j \in Sets : \A i \in 1..Len(fss[j].inds) :
    (Kind(j, i, {RSI}) /\ FromStart(j, i) /\ N > 0 /\ World.fs[j].max >= 2) =>
        LET c == AllCloses(j)
            n == fss[j].inds[i].p * World.fs[j].q
            d == [x \in 1..(Len(c) - 1) |-> c[x + 1] - c[x]]
            last == Suffix(d, n)
            x == LastOf(Fr(j)).iv[i][1]
        IN  IF Len(c) <= n THEN x.rsi = <<>>
            ELSE /\ x.rsi # <<>>
                 /\ x.rsi[1][1] = SumSeq([y \in 1..n |-> Max2(last[y], 0)])
                 /\ x.rsi[1][2] = SumSeq([y \in 1..n |-> Max2(-last[y], 0)])
P28_Refused == \A j \in Sets : \A i \in 1..Len(fss[j].inds) :
    fss[j].inds[i].kind = RSI => fss[j].inds[i].p * World.fs[j].q <= World.fs[j].max
\* the pivots of the previous value: supports below, resistances above, in order
P29_Order == \A j \in Sets : \A m \in 1..Len(Fr(j)) : \A i \in 1..Len(fss[j].inds) :
    (Kind(j, i, {PIVOT}) /\ HasVal(Fr(j)[m], i) /\ PrevIdx(Fr(j), m, i) # 0) =>
        LET p == Fr(j)[PrevIdx(Fr(j), m, i)].iv[i][1]
            P == MinSet(RoundSet(p.hv + p.lv + p.av, 3))
            H == p.hv  L == p.lv
        IN  /\ L - 2 * (H - P) <= P - (H - L) /\ P - (H - L) <= 2 * P - H + 1
            /\ 2 * P - L <= P + (H - L) + 1 /\ P + (H - L) <= H + 2 * (P - L)
            /\ L <= P /\ P <= H
=============================================================================
