----------------------------- MODULE TraceFrames -----------------------------
(***************************************************************************)
(* Validation of histories recorded from real frame sets: ticks fed to an   *)
(* epic with frame sets and indicators.  A recorded event carries every     *)
(* public observable of every frame set after the event; the specification *)
(* (Frames) is stepped with the same inputs and compared.  Some events are  *)
(* not looked at (o = 0), so that nothing depends on having been read.      *)
(***************************************************************************)
EXTENDS Frames, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Focus == IOEnv.TRACE_FOCUS
On(p) == Focus = "ALL" \/ Focus = p

VARIABLES tid, i, fss, seen
vars == <<tid, i, fss, seen>>
View == <<tid, i>>

T == Data.traces[tid]
Tz == T.tz
Cfg == [open |-> T.open, close |-> T.close, hol |-> T.hol,
        days |-> IF T.days = <<>> THEN <<0, 1, 2, 3, 4>> ELSE T.days]

\* logged frames of a snapshot, unchanged ones taken from the previous snapshot
Logged(snap, old) ==
    [k \in 1..Len(snap.fr) |-> IF snap.fr[k].k = 0 THEN snap.fr[k] ELSE old[snap.fr[k].k]]

(***************************************************************************)
(* Comparison of one frame set with its logged frames                      *)
(***************************************************************************)
\* the reported value of indicator j on logged frame k
Val(log, k, j) == log[k].iv[j]

ValShape(log, exp, k, nind) ==
    /\ Len(log[k].iv) = nind
    /\ \A j \in 1..nind : (log[k].iv[j] # <<>>) = HasVal(exp[k], j)

PrevDist(exp, k, j) == LET p == PrevIdx(exp, k, j) IN IF p = 0 THEN 0 ELSE k - p
NextDist(exp, k, j) == IF k < Len(exp) /\ HasVal(exp[k+1], j) THEN 1 ELSE 0

ValTicksOK(x, val) ==
    /\ x.f = val.f /\ x.a = val.a
    /\ x.h \in val.tks /\ x.hv = val.hv * CENT
    /\ x.l \in val.tks /\ x.lv = val.lv * CENT

\* reported figures of the previous value of indicator j before frame k (optional)
PrevLogged(log, exp, k, j) ==
    LET p == PrevIdx(exp, k, j) IN IF p = 0 THEN <<>> ELSE <<log[p].iv[j][1].o>>
PrevVal(exp, k, j) ==
    LET p == PrevIdx(exp, k, j) IN IF p = 0 THEN <<>> ELSE <<exp[p].iv[j][1]>>

OutputsOK(fs, log, exp, kinds, Ok(_, _, _)) ==
    \A k \in 1..Len(exp) : \A j \in 1..Len(fs.inds) :
        (fs.inds[j].kind \in kinds /\ HasVal(exp[k], j)) => Ok(k, j, log[k].iv[j][1].o)

\* the bounds of every frame are shown on the epic's local clock
Clocks(log) ==
    \A k \in 1..Len(log) : LET f == log[k] IN
        /\ f.w # <<>> /\ f.w[1] = Local(Tz, f.s)
        /\ (Len(f.w) = 2 /\ f.e # <<>>) => f.w[2] = Local(Tz, f.e[1])

FsClauses(fs, snap, log) ==
    LET exp == fs.frames
        n == Len(exp)
        m == Len(log)
        same == n = m
        timed == fs.unit # TICK
        nind == Len(fs.inds)
        shape == same /\ \A k \in 1..n : ValShape(log, exp, k, nind)
        \* grouping of ticks, compared on the frames both sides have
        assign == same /\ \A k \in 1..n : log[k].f = exp[k].f /\ log[k].a = exp[k].a /\ log[k].n = exp[k].n
    IN  (IF On("P19") /\ timed THEN {
            <<"P19.periods", same /\ \A k \in 1..n : log[k].s = exp[k].s /\ log[k].e = exp[k].e>>,
            <<"P19.clock", Clocks(log)>>,
            <<"P19.contiguous", \A k \in 1..(m - 1) : log[k].e = <<log[k+1].s>>>>,
            <<"P19.assignment", assign>> }
         ELSE {}) \cup
        (IF On("P21") /\ ~timed THEN {
            <<"P21.starts", same /\ \A k \in 1..n : log[k].s = exp[k].s>>,
            <<"P21.clock", Clocks(log)>>,
            <<"P21.assignment", assign>>,
            <<"P21.size", \A k \in 1..m : log[k].n <= fs.q>> }
         ELSE {}) \cup
        (IF On("P22") THEN {
            <<"P22.first_last", same /\ \A k \in 1..n : log[k].f = exp[k].f /\ log[k].a = exp[k].a>>,
            <<"P22.high", same /\ \A k \in 1..n : log[k].h \in exp[k].tks /\ log[k].hv = exp[k].hv * CENT>>,
            <<"P22.low", same /\ \A k \in 1..n : log[k].l \in exp[k].tks /\ log[k].lv = exp[k].lv * CENT>>,
            <<"P22.count", same /\ \A k \in 1..n : log[k].n = exp[k].n>> }
         ELSE {}) \cup
        (IF On("P23") THEN {
            <<"P23.retained", same /\ \A k \in 1..n : log[k].s = exp[k].s>>,
            <<"P23.bound", m <= fs.max>>,
            <<"P23.links", \A k \in 1..m : log[k].p = (IF k = 1 THEN 0 ELSE 1)
                                          /\ log[k].x = (IF k = m THEN 0 ELSE 1)>>,
            <<"P23.closed", \A k \in 1..m : log[k].c = (k # m)>>,
            <<"P23.current", snap.cur = m>>,
            <<"P23.get_frame", \A k \in 1..Len(snap.gf) :
                 snap.gf[k] = (IF k <= n THEN n + 1 - k ELSE 0)>>,
            <<"P23.get_indicator", \A j \in 1..Len(snap.gi) : \A k \in 1..Len(snap.gi[j]) :
                 snap.gi[j][k] = (IF k <= n /\ HasVal(exp[n + 1 - k], j) THEN n + 1 - k ELSE 0)>> }
         ELSE {}) \cup
        (IF On("P24") THEN {
            <<"P24.presence", shape>>,
            <<"P24.ticks", shape /\ \A k \in 1..n : \A j \in 1..nind :
                 HasVal(exp[k], j) => ValTicksOK(log[k].iv[j][1], exp[k].iv[j][1])>>,
            <<"P24.parent", shape /\ \A k \in 1..n : \A j \in 1..nind :
                 HasVal(exp[k], j) => /\ log[k].iv[j][1].own
                                      /\ log[k].iv[j][1].n = exp[k].n
                                      /\ log[k].iv[j][1].c = (k # n)>>,
            <<"P24.previous", shape /\ \A k \in 1..n : \A j \in 1..nind :
                 HasVal(exp[k], j) => log[k].iv[j][1].p = PrevDist(exp, k, j)>>,
            <<"P24.next", shape /\ \A k \in 1..n : \A j \in 1..nind :
                 HasVal(exp[k], j) => log[k].iv[j][1].x = NextDist(exp, k, j)>> }
         ELSE {}) \cup
        (IF On("P25") THEN {
            <<"P25.values", shape /\ OutputsOK(fs, log, exp, {CANDLE},
                 LAMBDA k, j, x : CandleOK(x, exp[k].iv[j][1]))>>,
            <<"P25.close", shape /\ OutputsOK(fs, log, exp, {CANDLE},
                 LAMBDA k, j, x : CloseOK(x, k # n))>>,
            <<"P25.shape", shape /\ OutputsOK(fs, log, exp, {CANDLE}, LAMBDA k, j, x : ShapeOK(x))>> }
         ELSE {}) \cup
        (IF On("P26") THEN {
            <<"P26.recurrence", shape /\ OutputsOK(fs, log, exp, {HEIKIN},
                 LAMBDA k, j, x : HeikinOK(x, exp[k].iv[j][1], PrevLogged(log, exp, k, j)))>>,
            <<"P26.close", shape /\ OutputsOK(fs, log, exp, {HEIKIN},
                 LAMBDA k, j, x : CloseOK(x, k # n))>>,
            <<"P26.shape", shape /\ OutputsOK(fs, log, exp, {HEIKIN}, LAMBDA k, j, x : ShapeOK(x))>> }
         ELSE {}) \cup
        (IF On("P27") THEN {
            <<"P27.mean", shape /\ OutputsOK(fs, log, exp, {SMA},
                 LAMBDA k, j, x : SmaOK(x, exp[k].iv[j][1], exp[k].av, fs.inds[j].p))>> }
         ELSE {}) \cup
        (IF On("P28") THEN {
            <<"P28.value", shape /\ OutputsOK(fs, log, exp, {RSI},
                 LAMBDA k, j, x : RsiOK(x, exp[k].iv[j][1]))>> }
         ELSE {}) \cup
        (IF On("P29") THEN {
            <<"P29.pivot", shape /\ OutputsOK(fs, log, exp, {PIVOT, OLHC},
                 LAMBDA k, j, x : PivotOK(x, exp[k].iv[j][1], PrevVal(exp, k, j),
                                          fs.inds[j].kind = OLHC))>> }
         ELSE {})

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Ind(x) == [kind |-> x[1], gated |-> x[2] = 1, p |-> x[3]]

RECURSIVE AttachAll(_, _)
AttachAll(fs, inds) == IF inds = <<>> THEN fs
                       ELSE AttachAll(Attach(fs, Ind(Head(inds))), Tail(inds))

InitFs(c) == AttachAll(NewFrameSet(c.unit, c.q, c.max), c.inds)

Event == T.ev[i + 1]

NextFss(ev) ==
    CASE ev.k = "tick" ->
            LET w == Local(Tz, ev.inst)
                t == [id |-> ev.id, v |-> ev.v \div CENT, inst |-> ev.inst, w |-> w]
                open == ~T.alone /\ MarketOpenAt(Cfg, w)
            IN  [j \in 1..Len(fss) |-> FrameTick(fss[j], t, open, Tz)]
      [] ev.k = "look" -> fss
      [] ev.k = "attach" ->
            LET ind == Ind(ev.ind)
            IN  IF Attachable(fss[ev.at], ind) THEN [fss EXCEPT ![ev.at] = Attach(@, ind)] ELSE fss

\* what the call itself must report
OutcomeClauses(ev) ==
    CASE ev.k = "tick" -> {<<Focus \o ".tick_accepted", ev.ok = "ok">>,
                           <<Focus \o ".whole_cent_value", ev.v % CENT = 0>>}
      [] ev.k = "look" -> {}
      [] ev.k = "attach" ->
            LET ok == Attachable(fss[ev.at], Ind(ev.ind))
            IN  {<<(IF ok THEN Focus ELSE "P28") \o ".attach",
                   IF ok THEN ev.ok = "ok" ELSE ev.ok = "estrade:BaseIndicatorException">>}

Init == /\ tid \in 1..Len(Data.traces)
        /\ i = 0
        /\ fss = [j \in 1..Len(T.fs) |-> InitFs(T.fs[j])]
        /\ seen = [j \in 1..Len(T.fs) |-> <<>>]

Next == /\ i < Len(T.ev)
        /\ LET ev == Event
               new == TLCEval(NextFss(ev))
               logs == IF ev.o = 0 THEN seen ELSE TLCEval([j \in 1..Len(fss) |-> Logged(ev.fs[j], seen[j])])
               bad == Failing(OutcomeClauses(ev))
                      \cup IF ev.o = 0 THEN {} ELSE UNION {Failing(FsClauses(new[j], ev.fs[j], logs[j])) : j \in 1..Len(new)}
           IN  /\ fss' = new
               /\ seen' = logs
               /\ (bad # {} => PrintT(<<"BAD", tid, i + 1, bad>>))
        /\ i' = i + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
