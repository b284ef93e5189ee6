----------------------------- MODULE TraceSystem ------------------------------
(***************************************************************************)
(* Validation of recorded trading sessions against System.                 *)
(*                                                                         *)
(* A recorded event carries the operation, its arguments and outcome, and  *)
(* the observables of every entity that changed since the event before     *)
(* (d).  The specification executes the same operation and the result is   *)
(* compared with everything observed.  The first event of a trace at which *)
(* a clause fails is reported and the rest of that trace is skipped.       *)
(***************************************************************************)
EXTENDS System, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Focus == IOEnv.TRACE_FOCUS
\* P32 looks at what P02 to P08 look at, after failures; its clauses bear its own name
On(p) == Focus = "ALL" \/ Focus = p \/ (Focus = "P32" /\ p \in {"P02", "P03", "P04", "P05", "P06", "P07", "P08"})

VARIABLES tid, i,
          S,        \* specification state
          seen,     \* latest observation of every entity
          stack,    \* ticks being processed (innermost last)
          dead      \* a clause failed earlier in this trace
View == <<tid, i>>


T == Data.traces[tid]

\* Not every event is followed by a look at what the code shows, so that nothing depends on
\* having been read: 0 not looked at, 1 looked at after events that were not, 2 looked at
Looked == T.ev[i + 1].o > 0
Fresh == T.ev[i + 1].o = 2

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
Patched(s, d) ==
    LET n == MaxSet({Len(s)} \cup {d[k].i : k \in 1..Len(d)})
    IN  TLCEval([j \in 1..n |->
            LET hits == {k \in 1..Len(d) : d[k].i = j}
            IN  IF hits = {} THEN s[j] ELSE d[CHOOSE k \in hits : TRUE].o])

Patch(sn, d) == [ep |-> Patched(sn.ep, d.ep), st |-> Patched(sn.st, d.st),
                 pv |-> Patched(sn.pv, d.pv), t |-> Patched(sn.t, d.t)]

Touched(ds) == {ds[k].i : k \in 1..Len(ds)}
NothingChanged(d) == d.ep = <<>> /\ d.st = <<>> /\ d.pv = <<>> /\ d.t = <<>>

(***************************************************************************)
(* Initial state                                                           *)
(***************************************************************************)
Ind(x) == [kind |-> x[1], gated |-> x[2] = 1, p |-> x[3]]
RECURSIVE AttachAll(_, _)
AttachAll(fs, inds) == IF inds = <<>> THEN fs
                       ELSE AttachAll(Attach(fs, Ind(Head(inds))), Tail(inds))
InitFs(c) == AttachAll(NewFrameSet(c.unit, c.q, c.max), c.inds)

InitEpic(c) ==
    [tz |-> c.tz, pv |-> c.pv, last |-> NoTick, flag |-> FALSE, regs |-> c.regs,
     cfg |-> [open |-> c.open, close |-> c.close, hol |-> c.hol,
              days |-> IF c.days = <<>> THEN <<0, 1, 2, 3, 4>> ELSE c.days],
     fss |-> [j \in 1..Len(c.fs) |-> InitFs(c.fs[j])]]

InitS == [ep |-> [e \in 1..Len(T.ep) |-> InitEpic(T.ep[e])],
          st |-> [s \in 1..T.nst |-> [stop |-> FALSE, pause |-> <<>>, tr |-> <<>>]],
          pv |-> [p \in 1..Len(T.pv) |-> [bt |-> T.pv[p], tr |-> <<>>]],
          tr |-> <<>>, run |-> {}, okd |-> {}]

\* does a request that is not held end well?
Well(s, r) == s.pv[r.p].bt \/ T.fail = 0 \/ (T.fail = 2 /\ r.c # 0)
\* requests finish at once unless the recorded provider holds them
Ran(s) == IF T.gated \/ s.run = {} THEN s
          ELSE LET ok == {r \in s.run : Well(s, r)}
               IN  [FinishAll(s, s.run, ok) EXCEPT !.okd = @ \cup ok]

(***************************************************************************)
(* Tick processing                                                         *)
(***************************************************************************)
Tk(ev, e) == [id |-> ev.id, inst |-> ev.inst, bid |-> ev.bid, ask |-> ev.ask, v |-> ev.v,
              w |-> Local(S.ep[e].tz, ev.inst)]

Top == LastOf(stack)
Pop == Front1(stack)

RECURSIVE Settle(_, _, _)
\* decide, in order, whether the strategies ids are served by this tick
Settle(c, sts, ids) ==
    IF ids = <<>> THEN [c |-> c, st |-> sts]
    ELSE LET s == Head(ids)
             at == c.inst
         IN  Settle([c EXCEPT !.act = IF IsActive(sts[s], at) THEN @ \cup {s} ELSE @,
                              !.pend = Tail(@)],
                    [sts EXCEPT ![s] = Resume(@, at)], Tail(ids))

IndexOf(q, x) == IF \E k \in 1..Len(q) : q[k] = x
                 THEN CHOOSE k \in 1..Len(q) : q[k] = x ELSE 0

\* strategies decided by the time s is called
Due(c, s) == LET k == IndexOf(c.pend, s) IN SubSeq(c.pend, 1, k)

GotOf(c, s) == LET q == SelectSeq(c.got, LAMBDA g : g[1] = s)
               IN  [k \in 1..Len(q) |-> q[k][2]]
Called(c) == {c.got[k][1] : k \in 1..Len(c.got)}

\* the order in which strategies were served
Served(c) == LET firsts == {k \in 1..Len(c.got) : k = 1 \/ c.got[k][1] # c.got[k-1][1]}
                 idx == SelectSeqIdx(Len(c.got), firsts)
             IN  [k \in 1..Len(idx) |-> c.got[idx[k]][1]]

Sub(q, A) == SelectSeq(q, LAMBDA x : x \in A)

DispatchClauses(c) ==
    LET called == Called(c)
        all == S.ep[c.e].regs
        \* a failing callback ends the tick
        regs == IF c.boom = 0 THEN all ELSE SubSeq(all, 1, IndexOf(all, c.boom))
        want0 == Calls(c.before, c.now)
        want(s) == IF s # c.boom THEN want0
                   ELSE SubSeq(want0, 1, Min2(Len(want0), Len(GotOf(c, s))))
        isEvent(n) == n \in {OPENEV, CLOSEEV}
    IN  (IF On("P04") THEN {
            <<"P04.registered_only", called \subseteq Range(regs)>>,
            <<"P04.order", Served(c) = Sub(regs, called)>>,
            <<"P04.all_active", c.act \subseteq called>>,
            <<"P04.once_each", \A s \in called :
                 LET g == SelectSeq(GotOf(c, s), LAMBDA n : ~isEvent(n))
                 IN  g = SelectSeq(want(s), LAMBDA n : ~isEvent(n))>>,
            <<"P04.event_first", \A s \in called :
                 \A k \in 2..Len(GotOf(c, s)) : ~isEvent(GotOf(c, s)[k])>> }
         ELSE {}) \cup
        (IF On("P05") THEN {
            <<"P05.events", \A s \in called \cup c.act :
                 SelectSeq(GotOf(c, s), isEvent) = SelectSeq(want(s), isEvent)>> }
         ELSE {}) \cup
        (IF On("P06") THEN {
            <<"P06.called_when_active", \A s \in Range(regs) : (s \in called) = (s \in c.act)>> }
         ELSE {})

(***************************************************************************)
(* Observed state against specification state                              *)
(***************************************************************************)
Map(q, F(_)) == [k \in 1..Len(q) |-> F(q[k])]
SumOf(q, F(_)) == SumSeq([k \in 1..Len(q) |-> F(q[k])])

TradeClauses(R, sn, old) ==
    LET n == Len(R.tr)
        N == 1..n
        N0 == 1..Len(old.t)
    IN  IF Len(sn.t) # n THEN {<<Focus \o ".trade_objects", FALSE>>} ELSE
        (IF On("P09") THEN {
            <<"P09.conserved", \A k \in N : sn.t[k].opq + sn.t[k].clq = sn.t[k].oq>>,
            <<"P09.closed_is_sum", \A k \in N : sn.t[k].clq = SumOf(sn.t[k].cl, LAMBDA c : c.q)>>,
            <<"P09.non_negative", \A k \in N : sn.t[k].opq >= 0 /\ sn.t[k].clq >= 0
                                   /\ \A j \in 1..Len(sn.t[k].cl) : sn.t[k].cl[j].q >= 0>>,
            <<"P09.closed_when_empty", \A k \in N : sn.t[k].closed = (sn.t[k].opq = 0)>>,
            <<"P09.never_reopens", \A k \in N0 : old.t[k].closed => sn.t[k].closed>>,
            <<"P09.clamped", \A k \in N : Map(sn.t[k].cl, LAMBDA c : c.q)
                                        = Map(R.tr[k].cl, LAMBDA c : c.q)>>,
            <<"P09.open_quantity", \A k \in N : sn.t[k].oq = R.tr[k].oq>>,
            <<"P09.opened", \A k \in N : sn.t[k].opq = OpenQty(R.tr[k])>> }
         ELSE {}) \cup
        (IF On("P10") THEN {
            <<"P10.open_value", \A k \in N : sn.t[k].ov = R.tr[k].ov /\ sn.t[k].dir = R.tr[k].dir>>,
            <<"P10.open_time", \A k \in N : sn.t[k].at = R.tr[k].at>>,
            <<"P10.clock", \A k \in N : /\ sn.t[k].w = R.tr[k].w
                                      /\ Map(sn.t[k].cl, LAMBDA c : c.w)
                                       = Map(R.tr[k].cl, LAMBDA c : c.w)>>,
            <<"P10.close_side", \A k \in N : sn.t[k].cv = R.tr[k].cv>>,
            <<"P10.close_values", \A k \in N : Map(sn.t[k].cl, LAMBDA c : <<c.v, c.at>>)
                                             = Map(R.tr[k].cl, LAMBDA c : <<c.v, c.at>>)>>,
            <<"P10.close_result", \A k \in N : Map(sn.t[k].cl, LAMBDA c : <<c.avg, c.res>>)
                    = Map(R.tr[k].cl, LAMBDA c : <<Unit(R.tr[k], c.v), Unit(R.tr[k], c.v) * c.q>>)>>,
            <<"P10.open_avg", \A k \in N : sn.t[k].oavg = OpenAvg(R.tr[k])>>,
            <<"P10.open_result", \A k \in N : sn.t[k].ores = OpenResult(R.tr[k])>>,
            <<"P10.closed_result", \A k \in N : sn.t[k].cres = ClosedResult(R.tr[k])>>,
            <<"P10.total", \A k \in N : sn.t[k].res = Result(R.tr[k])
                                     /\ sn.t[k].res = sn.t[k].ores + sn.t[k].cres>>,
            <<"P10.closed_avg", \A k \in N : LET q == ClosedQty(R.tr[k]) IN
                    IF q = 0 THEN sn.t[k].cavg = 0
                    ELSE CentsToCent(sn.t[k].cavg, ClosedResult(R.tr[k]) \div CENT, q)>>,
            <<"P10.avg", \A k \in N : LET q == R.tr[k].oq IN
                    IF q = 0 THEN sn.t[k].ravg = 0
                    ELSE CentsToCent(sn.t[k].ravg, Result(R.tr[k]) \div CENT, q)>>,
            <<"P10.asdict", \A k \in N : sn.t[k].asd = <<sn.t[k].oq, sn.t[k].ov, sn.t[k].clq,
                                                      sn.t[k].res, sn.t[k].dir, sn.t[k].st>> >> }
         ELSE {}) \cup
        (IF On("P11") THEN {
            <<"P11.closes_kept", \A k \in N0 :
                 /\ Len(sn.t[k].cl) >= Len(old.t[k].cl)
                 /\ \A j \in 1..Len(old.t[k].cl) :
                      LET a == old.t[k].cl[j]
                          b == sn.t[k].cl[j]
                      IN  <<a.id, a.q, a.v, a.at, a.res, a.avg>> = <<b.id, b.q, b.v, b.at, b.res, b.avg>> >>,
            <<"P11.one_at_a_time", \A k \in N : Len(sn.t[k].cl) = Len(R.tr[k].cl)>>,
            <<"P11.closed_is_final", \A k \in N0 :
                 old.t[k].closed =>
                    /\ \A f \in {"ov", "cv", "res", "ravg", "ores", "oavg", "cres", "cavg", "mx", "mn"} :
                          sn.t[k][f] = old.t[k][f]
                    /\ sn.t[k].closed>> }
         ELSE {}) \cup
        (IF On("P12") THEN {
            <<"P12.max", \A k \in N : sn.t[k].mx = R.tr[k].mx>>,
            <<"P12.min", \A k \in N : sn.t[k].mn = R.tr[k].mn>>,
            <<"P12.monotone", \A k \in N0 : sn.t[k].mx >= old.t[k].mx /\ sn.t[k].mn <= old.t[k].mn>> }
         ELSE {}) \cup
        (IF On("P14") THEN {
            <<"P14.provider", \A p \in 1..Len(R.pv) : sn.pv[p].tr = R.pv[p].tr>>,
            <<"P14.strategy", \A s \in 1..Len(R.st) : sn.st[s].tr = R.st[s].tr>>,
            <<"P14.once", \A p \in 1..Len(R.pv) :
                 Cardinality(Range(sn.pv[p].tr)) = Len(sn.pv[p].tr)>>,
            <<"P14.append_only", \A p \in 1..Len(old.pv) :
                 /\ Len(sn.pv[p].tr) >= Len(old.pv[p].tr)
                 /\ SubSeq(sn.pv[p].tr, 1, Len(old.pv[p].tr)) = old.pv[p].tr>>,
            <<"P14.opened", \A p \in 1..Len(R.pv) : sn.pv[p].op = Opened(R, p)>>,
            <<"P14.live_untouched", \A k \in N : (R.tr[k].rec /\ ~R.pv[R.ep[R.tr[k].e].pv].bt) =>
                 /\ sn.t[k].oq = R.tr[k].oq
                 /\ Map(sn.t[k].cl, LAMBDA c : c.q) = Map(R.tr[k].cl, LAMBDA c : c.q)>> }
         ELSE {}) \cup
        (IF On("P15") THEN {
            <<"P15.open_requests", \A k \in N : sn.t[k].rq = IF R.tr[k].rec THEN 1 ELSE 0>>,
            <<"P15.close_requests", \A k \in N : Map(sn.t[k].cl, LAMBDA c : c.rq)
                     = Map(R.tr[k].cl, LAMBDA c : IF c.req THEN 1 ELSE 0)>>,
            <<"P15.confirmed", \A r \in R.okd : R.pv[r.p].bt =>
                 IF r.c = 0 THEN sn.t[r.t].st = 3
                 ELSE r.c <= Len(sn.t[r.t].cl) /\ sn.t[r.t].cl[r.c].st = 3>>,
            <<"P15.recorded", \A p \in 1..Len(R.pv) : sn.pv[p].tr = R.pv[p].tr>>,
            <<"P15.alive", \A p \in 1..Len(R.pv) : sn.pv[p].alive = Alive(R, p)>> }
         ELSE {}) \cup
        (IF On("P31") THEN {
            <<"P31.owner", \A k \in N : sn.t[k].e = R.tr[k].e /\ sn.t[k].s = R.tr[k].s
                                      /\ sn.t[k].dir = R.tr[k].dir>>,
            <<"P31.labels", \A k \in N : sn.t[k].lab = <<R.tr[k].lab.ref, R.tr[k].lab.meta>> >>,
            <<"P31.status", \A k \in N : sn.t[k].st = R.tr[k].lab.st>>,
            <<"P31.closes", \A k \in N : Len(sn.t[k].cl) = Len(R.tr[k].cl)>>,
            <<"P31.close_labels", \A k \in N : \A j \in 1..Min2(Len(sn.t[k].cl), Len(R.tr[k].cl)) :
                 LET l == R.tr[k].cl[j].lab  o == sn.t[k].cl[j]
                 IN  o.lab = <<l.ref, l.meta>> /\ o.st = l.st /\ o.of = k>>,
            <<"P31.same_references", \A k \in N0 :
                 /\ sn.t[k].rh = old.t[k].rh
                 /\ \A j \in 1..Min2(Len(sn.t[k].cl), Len(old.t[k].cl)) :
                       sn.t[k].cl[j].rh = old.t[k].cl[j].rh>>,
            <<"P31.asdict", \A k \in N : sn.t[k].own /\ sn.t[k].asd[6] = sn.t[k].st>> }
         ELSE {}) \cup
        (IF On("P33") THEN {
            <<"P33.quantities", \A k \in N : sn.t[k].opq = OpenQty(R.tr[k])
                                           /\ Len(sn.t[k].cl) = Len(R.tr[k].cl)>>,
            <<"P33.moments", \A k \in N0 : /\ sn.t[k].at = old.t[k].at
                                           /\ \A j \in 1..Min2(Len(sn.t[k].cl), Len(old.t[k].cl)) :
                                                 sn.t[k].cl[j].at = old.t[k].cl[j].at>>,
            <<"P33.registries", /\ \A p \in 1..Len(R.pv) : sn.pv[p].tr = R.pv[p].tr
                                /\ \A s \in 1..Len(R.st) : sn.st[s].tr = R.st[s].tr>> }
         ELSE {}) \cup
        (IF On("P32") THEN {
            <<"P32.trades", \A k \in N : sn.t[k].cv = R.tr[k].cv /\ sn.t[k].opq = OpenQty(R.tr[k])
                 /\ sn.t[k].res = Result(R.tr[k]) /\ sn.t[k].mx = R.tr[k].mx /\ sn.t[k].mn = R.tr[k].mn>>,
            <<"P32.registries", /\ \A p \in 1..Len(R.pv) : sn.pv[p].tr = R.pv[p].tr
                                /\ \A s \in 1..Len(R.st) : sn.st[s].tr = R.st[s].tr>> }
         ELSE {})

\* signed quantity held by strategy s on epic e through recorded trades
Held(sn, R, e, s) == SumOf([k \in 1..Len(sn.t) |-> k],
    LAMBDA k : IF R.tr[k].rec /\ R.tr[k].e = e /\ R.tr[k].s = s THEN sn.t[k].dir * sn.t[k].opq ELSE 0)

NettingClauses(ev, R, sn, old) ==
    LET n == Len(R.tr)
        new == R.tr[n]
        bt == R.pv[R.ep[new.e].pv].bt
        before == IF n = 1 \/ ~Fresh THEN 0 ELSE
            SumOf([k \in 1..Len(old.t) |-> k],
                  LAMBDA k : IF S.tr[k].rec /\ S.tr[k].e = new.e /\ S.tr[k].s = new.s
                             THEN old.t[k].dir * old.t[k].opq ELSE 0)
        after == SumOf([k \in 1..Len(sn.t) |-> k],
                  LAMBDA k : IF k <= Len(sn.t) /\ R.tr[k].rec /\ R.tr[k].e = new.e /\ R.tr[k].s = new.s
                             THEN sn.t[k].dir * sn.t[k].opq ELSE 0)
    IN  IF ~Looked \/ ~On("P13") \/ ~bt \/ ev.reg = FALSE THEN {}
        ELSE IF Len(sn.t) # n THEN {<<"P13.trade_objects", FALSE>>}
        ELSE {
            <<"P13.closes", \A k \in 1..n : Map(sn.t[k].cl, LAMBDA c : <<c.q, c.v, c.at>>)
                                          = Map(R.tr[k].cl, LAMBDA c : <<c.q, c.v, c.at>>)>>,
            <<"P13.remainder", sn.t[n].oq = new.oq>>,
            <<"P13.recorded", \A p \in 1..Len(R.pv) : sn.pv[p].tr = R.pv[p].tr>>,
            <<"P13.recorded_strategy", \A s \in 1..Len(R.st) : sn.st[s].tr = R.st[s].tr>>,
            <<"P13.net_position", Fresh => after = before + new.dir * ev.q>>,
            <<"P13.one_direction", \A j, k \in 1..n :
                 (/\ R.tr[j].rec /\ R.tr[k].rec /\ R.tr[j].e = new.e /\ R.tr[k].e = new.e
                  /\ R.tr[j].s = new.s /\ R.tr[k].s = new.s
                  /\ sn.t[j].opq > 0 /\ sn.t[k].opq > 0) => sn.t[j].dir = sn.t[k].dir>>,
            <<"P13.others_untouched", Fresh => \A k \in 1..(n - 1) :
                 (R.tr[k].e # new.e \/ R.tr[k].s # new.s \/ R.tr[k].dir = new.dir) =>
                     sn.t[k] = old.t[k]>> }

EpicClauses(R, sn) ==
    (IF On("P03") THEN {
        <<"P03.flag", \A e \in 1..Len(R.ep) : sn.ep[e].last > 0 => sn.ep[e].flag = R.ep[e].flag>>,
        <<"P03.is_market_open", \A e \in 1..Len(R.ep) :
             sn.ep[e].last > 0 => sn.ep[e].imo = MarketOpenAt(R.ep[e].cfg, R.ep[e].last.w)>> }
     ELSE {}) \cup
    (IF On("P02") THEN {
        <<"P02.last_tick", \A e \in 1..Len(R.ep) : sn.ep[e].last = R.ep[e].last.id>>,
        <<"P02.last_instant", \A e \in 1..Len(R.ep) :
             R.ep[e].last.id > 0 => sn.ep[e].inst = R.ep[e].last.inst>>,
        <<"P02.last_local", \A e \in 1..Len(R.ep) :
             R.ep[e].last.id > 0 => sn.ep[e].w = R.ep[e].last.w>> }
     ELSE {}) \cup
    (IF On("P06") THEN {
        <<"P06.stopped", \A s \in 1..Len(R.st) : sn.st[s].stop = R.st[s].stop>>,
        <<"P06.paused_until", \A s \in 1..Len(R.st) : sn.st[s].pause = R.st[s].pause>> }
     ELSE {})

\* changes allowed to an operation on epic e (0: any) that is (not) a tick
IsolationClauses(R, d, e, isTick) ==
    IF ~Looked \/ ~On("P08") THEN {} ELSE {
        <<"P08.epics", Fresh => \A x \in Touched(d.ep) : isTick /\ x = e>>,
        <<"P08.trades", ~Fresh \/ e = 0 \/ \A k \in Touched(d.t) : k <= Len(R.tr) => R.tr[k].e = e>>,
        <<"P08.values", \A k \in Touched(d.t) : k <= Len(R.tr) =>
             \E j \in 1..Len(d.t) : d.t[j].i = k /\ d.t[j].o.cv = R.tr[k].cv
                                    /\ d.t[j].o.opq = OpenQty(R.tr[k])>> }

StateClauses(R, sn, old) == IF ~Looked THEN {} ELSE TradeClauses(R, sn, old) \cup EpicClauses(R, sn)

\* what the epic looks like from inside a callback (and after the tick)
FrameViewOK(fs, v) ==
    LET n == Len(fs.frames)
        c == fs.frames[n]
    IN  IF n = 0 THEN v.m = 0 ELSE
        /\ v.m = n /\ v.n = c.n /\ v.f = c.f /\ v.a = c.a /\ v.s = c.s
        /\ Len(v.iv) = Len(fs.inds)
        /\ \A j \in 1..Len(fs.inds) :
              v.iv[j] = IF HasVal(c, j) THEN <<c.iv[j][1].f, c.iv[j][1].a>> ELSE <<0, 0>>

InsideClauses(c, ev, sn) ==
    LET e == c.e
        ep == S.ep[e]
    IN  IF ~Looked \/ ~On("P07") THEN {} ELSE {
        <<"P07.tick", sn.ep[e].last = c.id>>,
        <<"P07.flag", sn.ep[e].flag = c.now
                      /\ sn.ep[e].imo = MarketOpenAt(ep.cfg, ep.last.w)>>,
        <<"P07.frames", Len(ev.fr) = Len(ep.fss)
                        /\ \A j \in 1..Len(ep.fss) : FrameViewOK(ep.fss[j], ev.fr[j])>>,
        <<"P07.trades", Len(sn.t) = Len(S.tr) /\ \A k \in 1..Len(S.tr) :
             (S.tr[k].e = e /\ S.tr[k].rec) => sn.t[k].cv = S.tr[k].cv /\ sn.t[k].res = Result(S.tr[k])>> }

\* prices of what a callback just did
NestedPriceClauses(R, sn) ==
    IF ~Looked \/ ~On("P07") \/ stack = <<>> THEN {} ELSE
    IF Len(sn.t) # Len(R.tr) THEN {<<"P07.trade_objects", FALSE>>} ELSE {
        <<"P07.priced", \A k \in 1..Len(R.tr) :
             /\ sn.t[k].ov = R.tr[k].ov /\ sn.t[k].cv = R.tr[k].cv /\ sn.t[k].at = R.tr[k].at
             /\ Map(sn.t[k].cl, LAMBDA c : <<c.v, c.at>>) = Map(R.tr[k].cl, LAMBDA c : <<c.v, c.at>>)>> }

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
Ok(ev) == <<Focus \o ".outcome", ev.ok = "ok">>

Result3(s, st, bad) == [S |-> s, stack |-> st, bad |-> bad]

EvStart(ev, sn) == Result3(S, stack, Failing(StateClauses(S, sn, seen)))

EvTickBegin(ev) ==
    LET tk == Tk(ev, ev.e)
        ok == Acceptable(S, ev.e, tk)
        new == IF ok THEN TLCEval(TakeIn(S, ev.e, tk)) ELSE S
        c == [e |-> ev.e, id |-> ev.id, inst |-> ev.inst, ok |-> ok,
              before |-> S.ep[ev.e].flag, now |-> new.ep[ev.e].flag,
              pend |-> IF ok THEN S.ep[ev.e].regs ELSE <<>>, act |-> {}, got |-> <<>>,
              boom |-> 0]
    IN  Result3(new, Append(stack, c), {})

EvCallback(ev, sn) ==
    IF stack = <<>> THEN Result3(S, stack, {"P04.callback_without_tick"})
    ELSE IF ~Top.ok THEN
        Result3(S, stack, Failing((IF On("P02") THEN {<<"P02.no_strategy", FALSE>>} ELSE {}) \cup
                                  (IF On("P04") THEN {<<"P04.refused_tick", FALSE>>} ELSE {})))
    ELSE LET r == TLCEval(Settle(Top, S.st, Due(Top, ev.s)))
             c == [r.c EXCEPT !.got = Append(@, <<ev.s, ev.n>>)]
             new == [S EXCEPT !.st = r.st]
             st == Append(Pop, c)
         IN  Result3(new, st,
                Failing(StateClauses(new, sn, seen) \cup InsideClauses(c, ev, sn)
                        \cup IsolationClauses(new, ev.d, c.e, TRUE)
                        \cup (IF On("P04") THEN {<<"P04.epic_argument", ev.e = c.e>>} ELSE {})
                        \cup (IF On("P32") THEN {<<"P32.ended", Top.boom = 0>>} ELSE {})))

\* the callback being executed fails
EvRaise(ev) == Result3(S, IF stack = <<>> THEN stack ELSE Append(Pop, [Top EXCEPT !.boom = ev.s]), {})

EvTickEnd(ev, sn) ==
    IF ~Top.ok THEN
        Result3(S, Pop, Failing(StateClauses(S, sn, seen) \cup
            (IF On("P02") THEN {<<"P02.refused", ev.ok = "estrade:EpicException">>,
                                <<"P02.atomic", Fresh => NothingChanged(ev.d)>>} ELSE {}) \cup
            IsolationClauses(S, ev.d, Top.e, FALSE)))
    ELSE LET r == IF Top.boom # 0 THEN [c |-> Top, st |-> S.st]
                  ELSE TLCEval(Settle(Top, S.st, Top.pend))
             new == [S EXCEPT !.st = r.st]
         IN  Result3(new, Pop,
                Failing(StateClauses(new, sn, seen)
                        \cup (IF ev.ok = "ok" \/ Top.boom # 0 THEN DispatchClauses(r.c) ELSE {})
                        \cup InsideClauses(r.c, ev, sn)
                        \cup IsolationClauses(new, ev.d, Top.e, TRUE)
                        \cup {<<Focus \o ".tick_outcome", (ev.ok = "ok") = (Top.boom = 0)>>}
                        \cup (IF On("P32") THEN {<<"P32.same_exception", Top.boom # 0 => ev.same>>} ELSE {})))

Lab(x) == [ref |-> x[1], meta |-> x[2], st |-> x[3]]

\* the trade an "open" event asks for
Plain(ev) ==
    CASE ev.how = "epic" -> TradeFromTick(ev.e, ev.s, ev.dir, ev.q, S.ep[ev.e].last)
      [] ev.how = "tick" -> TradeFromTick(ev.e, ev.s, ev.dir, ev.q,
                                          [ask |-> ev.ask, bid |-> ev.bid, inst |-> ev.inst, w |-> ev.inst])
      [] ev.how = "ctor" -> NewTrade(ev.e, ev.s, ev.dir, ev.q, ev.ov,
                                     IF ev.cv = <<>> THEN ev.ov ELSE ev.cv[1], ev.inst, ev.inst)

Asked(ev) == [Plain(ev) EXCEPT !.lab = Lab(ev.lab)]

EvOpen(ev, sn) ==
    LET new == Ran(IF ev.reg THEN OpenTrade(S, Asked(ev)) ELSE FloatTrade(S, Asked(ev)))
    IN  Result3(new, stack,
            Failing({Ok(ev), <<Focus \o ".new_trade", ev.t = Len(new.tr)>>}
                    \cup (IF ev.ok = "ok" /\ ev.t = Len(new.tr) THEN
                            StateClauses(new, sn, seen) \cup NettingClauses(ev, new, sn, seen)
                            \cup IsolationClauses(new, ev.d, ev.e, FALSE)
                            \cup NestedPriceClauses(new, sn)
                          ELSE {})))

Closed1(ev) ==
    LET t == S.tr[ev.t] IN
    CASE ev.how = "market" -> CloseFromTick(t, S.ep[t.e].last, ev.q, ev.req)
      [] ev.how = "tick"   -> CloseFromTick(t, [ask |-> ev.ask, bid |-> ev.bid, inst |-> ev.inst, w |-> ev.inst],
                                            ev.q, ev.req)
      [] ev.how = "value"  -> CloseAt(t, ev.v, ev.inst, ev.inst, ev.q, ev.req)

EvClose(ev, sn) ==
    LET done == [S EXCEPT !.tr[ev.t] = LabelClose(Closed1(ev), Lab(ev.lab))]
        new == IF ev.req THEN Ran(RequestClose(done, ev.t)) ELSE done
        n == Len(new.tr[ev.t].cl)
    IN  Result3(new, stack,
            Failing({Ok(ev)} \cup
                    (IF ev.ok = "ok" THEN
                       StateClauses(new, sn, seen) \cup IsolationClauses(new, ev.d, S.tr[ev.t].e, FALSE)
                       \cup NestedPriceClauses(new, sn)
                       \cup (IF Looked /\ (On("P09") \/ On("P11")) THEN
                               {<<Focus \o ".returned_close",
                                  Len(sn.t[ev.t].cl) = n /\ sn.t[ev.t].cl[n].id = ev.c>>} ELSE {})
                     ELSE {})))

EvCloseAll(ev, sn) ==
    LET new == Ran(CloseAll(S, ev.s, ev.q))
        mine == Range(S.st[ev.s].tr)
    IN  Result3(new, stack,
            Failing({Ok(ev)} \cup
                    (IF ev.ok = "ok" THEN
                       StateClauses(new, sn, seen) \cup IsolationClauses(new, ev.d, 0, FALSE)
                       \cup NestedPriceClauses(new, sn)
                       \cup (IF ~Looked \/ ~On("P16") THEN {}
                             ELSE IF Len(sn.t) # Len(new.tr) THEN {<<"P16.trade_objects", FALSE>>}
                             ELSE {
                               <<"P16.all_closed", ev.q = <<>> => \A k \in mine : sn.t[k].closed>>,
                               <<"P16.others_untouched", Fresh => \A k \in 1..Len(sn.t) :
                                    (k \notin mine \/ seen.t[k].closed) => sn.t[k] = seen.t[k]>>,
                               <<"P16.prices", \A k \in mine : Map(sn.t[k].cl, LAMBDA c : <<c.q, c.v, c.at>>)
                                                 = Map(new.tr[k].cl, LAMBDA c : <<c.q, c.v, c.at>>)>> })
                     ELSE {})))

EvUpdate(ev, sn) ==
    LET t == S.tr[ev.t]
        v == CASE ev.how = "value" -> ev.v
               [] ev.how = "tick" -> CloseSide(t.dir, [ask |-> ev.ask, bid |-> ev.bid])
               [] ev.how = "epic" -> CloseSide(t.dir, S.ep[t.e].last)
        new == [S EXCEPT !.tr[ev.t] = Reprice(@, v)]
    IN  Result3(new, stack, Failing({Ok(ev)} \cup StateClauses(new, sn, seen)
                                    \cup IsolationClauses(new, ev.d, t.e, FALSE)))

\* an order that cannot be taken: System!Refuse, nothing happens
EvRefuse(ev, sn) ==
    LET new == Refuse(S)
    IN  Result3(new, stack, Failing(StateClauses(new, sn, seen) \cup
            (IF On("P33") THEN {
               <<"P33.refused", ev.ref>>,
               <<"P33.no_request", ev.rq = 0>>,
               <<"P33.unchanged", Fresh => NothingChanged(ev.d)>> }
             ELSE {})))

EvControl(ev, sn) ==
    LET new == CASE ev.k = "pause" -> IF ev.until = <<>> THEN Unpause(S, ev.s)
                                      ELSE Pause(S, ev.s, ev.until[1])
                 [] ev.k = "stop" -> Stop(S, ev.s, ev.on)
                 [] ev.k = "reg" -> Register(S, ev.e, ev.s)
                 [] ev.k = "addfs" -> AddFrameSet(S, ev.e, InitFs(ev.fs))
                 [] ev.k = "cfg" -> Configure(S, ev.e, [open |-> ev.open, close |-> ev.close,
                                                        hol |-> ev.hol, days |-> ev.days],
                                              IF ev.tz = <<>> THEN S.ep[ev.e].tz ELSE ev.tz[1])
                 [] ev.k = "note" -> IF ev.c = 0 THEN [S EXCEPT !.tr[ev.t].lab.meta = ev.v]
                                     ELSE [S EXCEPT !.tr[ev.t].cl[ev.c].lab.meta = ev.v]
        e == IF ev.k \in {"addfs", "cfg"} THEN ev.e ELSE 0
    IN  Result3(new, stack, Failing({Ok(ev)} \cup StateClauses(new, sn, seen)
                                    \cup IsolationClauses(new, ev.d, e, e # 0)))

\* is the strategy active at this instant? (asked without a pause ending)
EvActive(ev, sn) ==
    Result3(S, stack, Failing({Ok(ev)} \cup
        (IF On("P06") THEN {<<"P06.is_active", ev.out = IsActive(S.st[ev.s], ev.inst)>>} ELSE {})
        \cup StateClauses(S, sn, seen)))

EvTrades(ev, sn) ==
    LET want == TradesOf(S, ev.s, ev.eps, ev.oo, ev.after)
        at == [k \in 1..Len(S.st[ev.s].tr) |-> S.tr[S.st[ev.s].tr[k]].at]
        chronological == \A k \in 1..(Len(at) - 1) : Le(at[k], at[k+1])
    IN  Result3(S, stack, Failing({Ok(ev)} \cup
            (IF On("P16") /\ (ev.after = <<>> \/ chronological)
             THEN {<<"P16.selection", ev.out = want>>} ELSE {})
            \cup StateClauses(S, sn, seen)))

EvFigures(ev, sn) ==
    LET ids == IF ev.ids = <<>> THEN S.st[ev.s].tr ELSE ev.ids[1]
    IN  Result3(S, stack, Failing({Ok(ev)} \cup
            (IF On("P17") THEN {
               <<"P17.result", ev.res = SumResults(S, ids)>>,
               <<"P17.profit_factor", ProfitFactorOK(ev.pf, SumGains(S, ids), SumLosses(S, ids))>> }
             ELSE {})
            \cup StateClauses(S, sn, seen)))

\* a held request ends, well or with an exception
EvFinish(ev, sn) ==
    LET r == [p |-> ev.p, t |-> ev.t, c |-> ev.c]
        new == [Finish(S, r, ~ev.fail) EXCEPT !.okd = IF ev.fail THEN @ ELSE @ \cup {r}]
    IN  Result3(new, stack, Failing({Ok(ev)} \cup StateClauses(new, sn, seen)
            \cup (IF On("P15") THEN {
                    <<"P15.only_that_request", ev.others = 0>>,
                    <<"P15.trades_kept", Fresh => \A k \in 1..Len(seen.t) :
                        [sn.t[k] EXCEPT !.st = 0, !.cl = <<>>, !.asd = <<>>]
                      = [seen.t[k] EXCEPT !.st = 0, !.cl = <<>>, !.asd = <<>>]>> }
                  ELSE {})))

(***************************************************************************)
(* Reports: files before and after as sequences of rows (sequences of      *)
(* fields); a numeric field is compared with the figure it must show.      *)
(***************************************************************************)
StrategyRowOK(row, s, ids) ==
    /\ row.ref = s
    /\ row.n = Len(ids)
    /\ row.res = SumResults(S, ids)
    /\ ProfitFactorOK(row.pf, SumGains(S, ids), SumLosses(S, ids))

TradeRowOK(row, k) ==
    LET t == S.tr[k]
    IN  /\ k \in Range(row.t)         \* reference of the trade (others may bear it too)
        /\ t.e \in Range(row.e) /\ row.s = t.s
        /\ row.dir = t.dir
        /\ row.st = IF Fresh THEN seen.t[k].st ELSE t.lab.st
        /\ row.date = <<t.w[1], t.w[2], 0>>        \* local, shown to the second
        /\ row.oq = t.oq /\ row.ov = t.ov
        /\ row.clq = ClosedQty(t)
        /\ row.res = Result(t)

FileOK(f, RowOK(_), n) ==
    /\ f.kept                         \* every earlier line is still there, first and unaltered
    /\ f.headers = 1                  \* exactly one header, on the first line
    /\ Len(f.rows) = n
    /\ \A k \in 1..Len(f.rows) : RowOK(k)

EvReport(ev, sn) ==
    LET ids(k) == Rev(S.st[ev.sts[k]].tr)
    IN  Result3(S, stack, Failing({Ok(ev)} \cup
            (IF On("P18") /\ ev.ok = "ok" THEN {
               <<"P18.files", ev.extra = 0 /\ ev.missing = 0>>,
               <<"P18.strategies", FileOK(ev.main, LAMBDA k :
                    StrategyRowOK(ev.main.rows[k], ev.sts[k], ids(k)), Len(ev.sts))>>,
               <<"P18.trades", ev.details => \A k \in 1..Len(ev.sts) :
                    ids(k) # <<>> => FileOK(ev.files[k], LAMBDA j :
                        TradeRowOK(ev.files[k].rows[j], ids(k)[j]), Len(ids(k)))>>,
               <<"P18.no_change", Fresh => NothingChanged(ev.d)>> }
             ELSE {})))

Step(ev, sn) ==
    CASE ev.k \in {"start", "look"} -> EvStart(ev, sn)
      [] ev.k = "tb" -> EvTickBegin(ev)
      [] ev.k = "cb" -> EvCallback(ev, sn)
      [] ev.k = "te" -> EvTickEnd(ev, sn)
      [] ev.k = "open" -> EvOpen(ev, sn)
      [] ev.k = "close" -> EvClose(ev, sn)
      [] ev.k = "closeall" -> EvCloseAll(ev, sn)
      [] ev.k = "update" -> EvUpdate(ev, sn)
      [] ev.k = "refuse" -> EvRefuse(ev, sn)
      [] ev.k = "raise" -> EvRaise(ev)
      [] ev.k \in {"pause", "stop", "reg", "addfs", "cfg", "note"} -> EvControl(ev, sn)
      [] ev.k = "active" -> EvActive(ev, sn)
      [] ev.k = "trades" -> EvTrades(ev, sn)
      [] ev.k = "figures" -> EvFigures(ev, sn)
      [] ev.k = "finish" -> EvFinish(ev, sn)
      [] ev.k = "report" -> EvReport(ev, sn)

Init == /\ tid \in 1..Len(Data.traces)
        /\ i = 0
        /\ S = InitS
        /\ seen = [ep |-> <<>>, st |-> <<>>, pv |-> <<>>, t |-> <<>>]
        /\ stack = <<>>
        /\ dead = FALSE

Next == /\ i < Len(T.ev)
        /\ i' = i + 1
        /\ UNCHANGED tid
        /\ IF dead THEN UNCHANGED <<S, seen, stack, dead>>
           ELSE LET ev == T.ev[i + 1]
                    sn == TLCEval(Patch(seen, ev.d))
                    r == TLCEval(Step(ev, sn))
                IN  /\ S' = r.S
                    /\ stack' = r.stack
                    /\ seen' = sn
                    /\ dead' = (r.bad # {})
                    /\ (r.bad # {} => PrintT(<<"BAD", tid, i + 1, r.bad>>))

Spec == Init /\ [][Next]_<<tid, i, S, seen, stack, dead>>
=============================================================================
