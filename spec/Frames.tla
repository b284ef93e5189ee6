-------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Frame sets: grouping of ticks into frames, and indicator values.        *)
(*                                                                         *)
(* tick  == [id, v (cents), inst, w (local reading)]                       *)
(* ind   == [kind, gated, p]                                               *)
(* val   == value of one indicator on one frame: [f, a (tick ids), fv, av, *)
(*          hv, lv (values), tks (ids of eligible ticks), cl (closes of    *)
(*          earlier frames), ch (changes of earlier frames), rsi (gains    *)
(*          and losses, optional)]                                         *)
(* frame == [s, e (optional), n, f, a, fv, av, hv, lv, tks, iv]            *)
(* fset  == [unit, q, max, inds, frames, day]                              *)
(***************************************************************************)
EXTENDS Calendar, TLC

BASE == 0  CANDLE == 1  HEIKIN == 2  SMA == 3  RSI == 4  PIVOT == 5  OLHC == 6

Eligible(ind, open) == ~ind.gated \/ open

RsiPeriods(fs, ind) == ind.p * fs.q

\* is an indicator acceptable for the frame set when it is attached
Attachable(fs, ind) == ind.kind = RSI => RsiPeriods(fs, ind) <= fs.max

HasVal(fr, i) == i <= Len(fr.iv) /\ fr.iv[i] # <<>>

\* nearest frame before frame k that carries indicator i (0: none)
PrevIdx(frames, k, i) ==
    LET S == {j \in 1..(k - 1) : HasVal(frames[j], i)}
    IN  IF S = {} THEN 0 ELSE MaxSet(S)

\* changes of closing value up to and including frame k
Changes(frames, k, val) ==
    IF k = 1 THEN <<>>
    ELSE Append(val.ch, frames[k].av - frames[k-1].av)

Gains(s)  == SumSeq([i \in 1..Len(s) |-> IF s[i] > 0 THEN s[i] ELSE 0])
Losses(s) == SumSeq([i \in 1..Len(s) |-> IF s[i] < 0 THEN -s[i] ELSE 0])

WithRsi(fs, frames, k, ind, val) ==
    IF ind.kind # RSI THEN val
    ELSE LET c == Changes(frames, k, val)
         IN  IF Len(c) = RsiPeriods(fs, ind)
             THEN [val EXCEPT !.rsi = <<<<Gains(c), Losses(c)>>>>]
             ELSE val

\* value of indicator i created on frame k by tick t
NewVal(fs, frames, k, i, t) ==
    LET ind == fs.inds[i]
        j == PrevIdx(frames, k, i)
        prev == frames[j].iv[i][1]
        raw == [f |-> t.id, a |-> t.id, fv |-> t.v, av |-> t.v, hv |-> t.v, lv |-> t.v,
                tks |-> {t.id},
                cl |-> IF ind.kind # SMA \/ j = 0 THEN <<>>
                       ELSE Suffix(Append(prev.cl, frames[j].av), ind.p - 1),
                ch |-> IF ind.kind # RSI \/ j = 0 THEN <<>>
                       ELSE Suffix(Changes(frames, j, prev), RsiPeriods(fs, ind) - 1),
                rsi |-> <<>>]
    IN  WithRsi(fs, frames, k, ind, raw)

UpdVal(fs, frames, k, i, t, open) ==
    LET ind == fs.inds[i]
        val == frames[k].iv[i][1]
        new == IF Eligible(ind, open)
               THEN [val EXCEPT !.a = t.id, !.av = t.v, !.hv = Max2(@, t.v), !.lv = Min2(@, t.v),
                                !.tks = @ \cup {t.id}]
               ELSE val
    IN  WithRsi(fs, frames, k, ind, new)

\* indicator values of frame k after it took in tick t
Upsert(fs, frames, k, t, open) ==
    TLCEval([i \in 1..Len(fs.inds) |->
        IF HasVal(frames[k], i) THEN <<UpdVal(fs, frames, k, i, t, open)>>
        ELSE IF Eligible(fs.inds[i], open) THEN <<NewVal(fs, frames, k, i, t)>>
        ELSE <<>>])

CreateFrame(fs, t, s, e, open) ==
    LET fr == [s |-> s, e |-> e, n |-> 1, f |-> t.id, a |-> t.id, fv |-> t.v, av |-> t.v,
               hv |-> t.v, lv |-> t.v, tks |-> {t.id}, iv |-> <<>>]
        frames == Append(fs.frames, fr)
        k == Len(frames)
        full == [frames EXCEPT ![k].iv = Upsert(fs, frames, k, t, open)]
    IN  TLCEval([fs EXCEPT !.frames = Suffix(full, fs.max)])

AddToLast(fs, t, open) ==
    LET k == Len(fs.frames)
        frames == [fs.frames EXCEPT
                      ![k] = [@ EXCEPT !.n = @ + 1, !.a = t.id, !.av = t.v,
                                       !.hv = Max2(@, t.v), !.lv = Min2(@, t.v),
                                       !.tks = @ \cup {t.id}]]
    IN  [fs EXCEPT !.frames = [frames EXCEPT ![k].iv = Upsert(fs, frames, k, t, open)]]

Current(fs) == LastOf(fs.frames)

\* the end of the timeframe that contains the instant u
EndOf(fs, tz, u) ==
    FirstInstant(tz, GridNext(fs.unit, fs.q, GridStart(fs.unit, fs.q, Local(tz, u))))

RECURSIVE FillGap(_, _, _, _)
\* flat frames from the end of the current frame up to the instant s
FillGap(fs, s, tz, open) ==
    LET c == Current(fs)
    IN  IF ~Lt(c.e[1], s) THEN fs
        ELSE FillGap(CreateFrame(fs, [id |-> c.a, v |-> c.av], c.e[1],
                                 <<EndOf(fs, tz, c.e[1])>>, open),
                     s, tz, open)

FrameOver(fs, t) ==
    \/ fs.frames = <<>>
    \/ fs.unit = TICK /\ (Current(fs).n >= fs.q \/ t.w[1] > fs.day)
    \/ fs.unit # TICK /\ ~Lt(t.inst, Current(fs).e[1])

(* The frame set after tick t, taken in while the market is open (or not). *)
FrameTick(fs, t, open, tz) ==
    LET s == FirstInstant(tz, GridStart(fs.unit, fs.q, t.w))
        e == FirstInstant(tz, GridNext(fs.unit, fs.q, GridStart(fs.unit, fs.q, t.w)))
        new == IF ~FrameOver(fs, t) THEN AddToLast(fs, t, open)
               ELSE IF fs.unit = TICK THEN CreateFrame(fs, t, t.inst, <<>>, open)
               ELSE CreateFrame(IF fs.frames = <<>> THEN fs ELSE FillGap(fs, s, tz, open),
                                t, s, <<e>>, open)
    IN  [new EXCEPT !.day = t.w[1]]

NewFrameSet(unit, q, max) ==
    [unit |-> unit, q |-> q, max |-> max, inds |-> <<>>, frames |-> <<>>, day |-> 0]

Attach(fs, ind) == [fs EXCEPT !.inds = Append(@, ind)]

(***************************************************************************)
(* What indicator values show.  x denotes the reported figures (units).    *)
(***************************************************************************)
ShapeOK(x) ==    \* colour, height, body, head, tail of any candle
    /\ x.col = (IF x.a > x.o THEN 1 ELSE IF x.a < x.o THEN -1 ELSE 0)
    /\ x.hgt = x.h - x.l
    /\ x.body = <<Abs(x.o - x.a)>>
    /\ x.head = <<x.h - Max2(x.o, x.a)>>
    /\ x.tail = <<Min2(x.o, x.a) - x.l>>

CloseOK(x, closed) == x.c = IF closed THEN <<x.a>> ELSE <<>>

CandleOK(x, val) ==
    /\ x.o = val.fv * CENT /\ x.h = val.hv * CENT
    /\ x.l = val.lv * CENT /\ x.a = val.av * CENT

\* prev: the reported figures of the previous candle (optional)
HeikinOK(x, val, prev) ==
    /\ CentsToCent(x.a, val.fv + val.hv + val.lv + val.av, 4)
    /\ IF prev = <<>> THEN x.o = val.fv * CENT
       ELSE ToCent(x.o, prev[1].o + prev[1].a, 2)
    /\ x.h = Max2(val.hv * CENT, Max2(x.o, x.a))
    /\ x.l = Min2(val.lv * CENT, Min2(x.o, x.a))

\* x.v[k]: the average over k periods (optional); frame last value av
SmaOK(x, val, av, max) ==
    LET closes == Append(val.cl, av)
    IN  \A k \in 1..Len(x.v) :
            IF k > max \/ k > Len(closes) THEN x.v[k] = <<>>
            ELSE /\ Len(x.v[k]) = 1
                 /\ CentsToCent(x.v[k][1], SumSeq(Suffix(closes, k)), k)

RsiOK(x, val) ==
    IF val.rsi = <<>> THEN x.v = <<>>
    ELSE LET G == val.rsi[1][1]
             L == val.rsi[1][2]
         IN  /\ Len(x.v) = 1
             /\ IF L = 0 THEN x.v[1] = 1000000
                ELSE IF G = 0 THEN x.v[1] = 0
                ELSE CentsToCent(x.v[1], 10000 * G, G + L)

\* prev: the previous value (optional)
PivotOK(x, val, prev, olhc) ==
    IF prev = <<>> THEN x.v = <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>
    ELSE LET H == prev[1].hv * CENT
             L == prev[1].lv * CENT
             P == x.v[1][1]
         IN  /\ Len(x.v[1]) = 1
             /\ IF olhc THEN CentsToCent(P, prev[1].hv + prev[1].lv + prev[1].av + val.fv, 4)
                ELSE CentsToCent(P, prev[1].hv + prev[1].lv + prev[1].av, 3)
             /\ x.v[2] = <<2 * P - H>>
             /\ x.v[3] = <<P - (H - L)>>
             /\ x.v[4] = <<L - 2 * (H - P)>>
             /\ x.v[5] = <<2 * P - L>>
             /\ x.v[6] = <<P + (H - L)>>
             /\ x.v[7] = <<H + 2 * (P - L)>>
=============================================================================
