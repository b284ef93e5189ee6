-------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* Epics, strategies, trades and trade providers: the state of a trading   *)
(* session and its transitions, one operator per public operation.         *)
(*                                                                         *)
(* S == [ep : sequence of epics, st : strategies, tr : trades, pv :        *)
(*       providers, run : set of unfinished provider requests]; entities   *)
(*       are referred to by their index.                                   *)
(*                                                                         *)
(* epic     == [tz, cfg, pv, last (tick), flag, fss (frame sets), regs     *)
(*              (strategies in registration order)]                        *)
(* strategy == [stop, pause (optional instant), tr (trades)]               *)
(* provider == [bt (backtest?), tr (trades)]                               *)
(* trade    == [e, s (0: none), dir, oq, ov, cv, at, w, cl, mx, mn, rec,   *)
(*             lab]                                                        *)
(* close    == [q, v, at, w, req (request sent to the provider?), lab]     *)
(* (at: an instant; w: what the local clock shows then)                    *)
(* lab      == [ref, meta, st]: reference and metadata given (0: none) and *)
(*             transaction status                                          *)
(* request  == [p, t, c (close of trade t, or 0: its opening)]              *)
(* tick     == [id, inst, bid, ask, v, w]                                   *)
(* Prices and results are integer numbers of 0.0001.                       *)
(***************************************************************************)
EXTENDS Frames

BUY == 1
SELL == -1

CREATED == 0   PENDING == 2   CONFIRMED == 3
NoLabel == [ref |-> 0, meta |-> 0, st |-> CREATED]

OPENEV == 1   CLOSEEV == 2   MKT == 3   EVERY == 4

\* the pseudo tick every epic starts with: 1900-01-01T00:00:00Z at 0/0
NoTick == [id |-> 0, inst |-> <<-25567, 0, 0>>, bid |-> 0, ask |-> 0, v |-> 0,
           w |-> <<-25567, 0, 0>>]

(***************************************************************************)
(* Trades                                                                  *)
(***************************************************************************)
\* to the nearest cent (inputs that lie half-way are not used)
Nearest(x) == ((x + CENT \div 2) \div CENT) * CENT

OpenSide(dir, tick)  == IF dir = BUY THEN tick.ask ELSE tick.bid
CloseSide(dir, tick) == IF dir = BUY THEN tick.bid ELSE tick.ask

Unit(t, v) == Nearest(t.dir * (v - t.ov))       \* result of one unit closed at v

ClosedQty(t) == SumSeq([i \in 1..Len(t.cl) |-> t.cl[i].q])
OpenQty(t)   == t.oq - ClosedQty(t)
IsClosed(t)  == OpenQty(t) = 0

OpenAvg(t)      == IF IsClosed(t) THEN 0 ELSE Unit(t, t.cv)
OpenResult(t)   == OpenAvg(t) * OpenQty(t)
ClosedResult(t) == SumSeq([i \in 1..Len(t.cl) |-> Unit(t, t.cl[i].v) * t.cl[i].q])
Result(t)       == OpenResult(t) + ClosedResult(t)

NewTrade(e, s, dir, q, ov, cv, at, w) ==
    LET t == [e |-> e, s |-> s, dir |-> dir, oq |-> q, ov |-> ov, cv |-> cv, at |-> at, w |-> w,
              cl |-> <<>>, mx |-> 0, mn |-> 0, rec |-> FALSE, lab |-> NoLabel]
    IN  [t EXCEPT !.mx = Result(t), !.mn = Result(t)]

TradeFromTick(e, s, dir, q, tick) ==
    NewTrade(e, s, dir, q, OpenSide(dir, tick), CloseSide(dir, tick), tick.inst, tick.w)

\* a price update: ignored once the trade is closed
Reprice(t, v) ==
    IF IsClosed(t) THEN t
    ELSE LET u == [t EXCEPT !.cv = v]
             r == Result(u)
         IN  [u EXCEPT !.mx = Max2(@, r), !.mn = Min2(@, r)]

\* q: requested quantity (optional)
Clamp(t, q) == IF q = <<>> THEN OpenQty(t) ELSE Min2(q[1], OpenQty(t))

CloseAt(t, v, at, w, q, req) ==
    [t EXCEPT !.cl = Append(@, [q |-> Clamp(t, q), v |-> v, at |-> at, w |-> w, req |-> req, lab |-> NoLabel])]

\* what the caller says about the latest close
LabelClose(t, lab) == [t EXCEPT !.cl[Len(t.cl)].lab = lab]

CloseFromTick(t, tick, q, req) ==
    LET u == Reprice(t, CloseSide(t.dir, tick)) IN CloseAt(u, u.cv, tick.inst, tick.w, q, req)

(***************************************************************************)
(* Providers                                                               *)
(***************************************************************************)
\* the latest close of trade k is handed to the provider of its epic
RequestClose(S, k) ==
    [S EXCEPT !.run = @ \cup {[p |-> S.ep[S.tr[k].e].pv, t |-> k, c |-> Len(S.tr[k].cl)]}]

\* what a provider makes of a request it served well
Answer(S, p) == IF S.pv[p].bt THEN CONFIRMED ELSE PENDING
Reported(S, r, x) == [x EXCEPT !.lab.st = Answer(S, r.p)]

\* the request r ends, well or with an exception
Finish(S, r, well) ==
    LET new == [S EXCEPT !.run = @ \ {r}]
    IN  IF ~well THEN new
        ELSE IF r.c = 0 THEN [new EXCEPT !.tr[r.t] = Reported(S, r, @)]
        ELSE [new EXCEPT !.tr[r.t].cl[r.c] = Reported(S, r, @)]

RECURSIVE FinishAll(_, _, _)
\* the requests rs end, those in ok well
FinishAll(S, rs, ok) ==
    IF rs = {} THEN S
    ELSE LET r == CHOOSE x \in rs : TRUE
         IN  FinishAll(TLCEval(Finish(S, r, r \in ok)), rs \ {r}, ok)

Alive(S, p)  == \E r \in S.run : r.p = p

\* record a new trade and send its opening to the provider
Record(S, p, t) ==
    LET n == Len(S.tr) + 1
    IN  [S EXCEPT !.tr = Append(@, [t EXCEPT !.rec = TRUE]),
                  !.run = @ \cup {[p |-> p, t |-> n, c |-> 0]},
                  !.pv[p].tr = Append(@, n),
                  !.st = IF t.s = 0 THEN @ ELSE [@ EXCEPT ![t.s].tr = Append(@, n)]]

\* opened trades of a provider, newest first
Opened(S, p) == SelectSeq(Rev(S.pv[p].tr), LAMBDA k : ~IsClosed(S.tr[k]))

Offsets(t, new) == t.e = new.e /\ t.s = new.s /\ t.dir = -new.dir

RECURSIVE Net(_, _, _)
\* close opposite trades ids (newest first) against the new trade
Net(S, ids, new) ==
    IF ids = <<>> \/ new.oq = 0 THEN [S |-> S, new |-> new]
    ELSE LET k == Head(ids)
             t == S.tr[k]
         IN  IF ~Offsets(t, new) THEN Net(S, Tail(ids), new)
             ELSE LET q == Min2(OpenQty(t), new.oq)
                      closed == CloseFromTick(t, S.ep[t.e].last, <<q>>, TRUE)
                      rest == [new EXCEPT !.oq = @ - q]
                  IN  Net(RequestClose([S EXCEPT !.tr[k] = closed], k), Tail(ids),
                          [rest EXCEPT !.mx = Result(rest), !.mn = Result(rest)])

\* hand a new trade to the provider of its epic; it becomes S.tr[Len(S.tr)]
OpenTrade(S, new) ==
    LET p == S.ep[new.e].pv
    IN  IF ~S.pv[p].bt THEN Record(S, p, new)
        ELSE LET r == Net(S, Opened(S, p), new)
             IN  IF r.new.oq = 0 THEN [r.S EXCEPT !.tr = Append(@, r.new)]
                 ELSE Record(r.S, p, r.new)

\* a trade built without any provider
FloatTrade(S, new) == [S EXCEPT !.tr = Append(@, new)]

\* close at the market, through the epic (request sent) or on the trade alone
CloseMarket(S, k, q, req) ==
    LET new == [S EXCEPT !.tr[k] = CloseFromTick(@, S.ep[S.tr[k].e].last, q, req)]
    IN  IF req THEN RequestClose(new, k) ELSE new

(***************************************************************************)
(* Strategy queries                                                        *)
(***************************************************************************)
\* eps, after: optional
TradesOf(S, s, eps, openOnly, after) ==
    SelectSeq(Rev(S.st[s].tr),
              LAMBDA k : /\ eps = <<>> \/ \E i \in 1..Len(eps[1]) : eps[1][i] = S.tr[k].e
                         /\ openOnly => ~IsClosed(S.tr[k])
                         /\ after = <<>> \/ Le(after[1], S.tr[k].at))

RECURSIVE CloseEach(_, _, _)
CloseEach(S, ids, q) == IF ids = <<>> THEN S
                        ELSE CloseEach(CloseMarket(S, Head(ids), q, TRUE), Tail(ids), q)

\* q of each open trade (everything when no quantity is given)
CloseAll(S, s, q) == CloseEach(S, TradesOf(S, s, <<>>, TRUE, <<>>), q)

SumResults(S, ids) == SumSeq([i \in 1..Len(ids) |-> Result(S.tr[ids[i]])])
SumGains(S, ids) == SumSeq([i \in 1..Len(ids) |-> Max2(Result(S.tr[ids[i]]), 0)])
SumLosses(S, ids) == SumSeq([i \in 1..Len(ids) |-> Max2(-Result(S.tr[ids[i]]), 0)])

\* acceptable profit factors (units) for gains and losses (units, whole cents)
ProfitFactorOK(pf, gains, losses) ==
    IF losses = 0 THEN pf = gains
    ELSE IF losses < 10000 THEN pf = gains
    ELSE CentsToCent(pf, gains, losses \div CENT)

(***************************************************************************)
(* Ticks and strategies                                                    *)
(***************************************************************************)
Acceptable(S, e, tick) == ~Lt(tick.inst, S.ep[e].last.inst)

\* everything an accepted tick does before strategies are called
TakeIn(S, e, tick) ==
    LET ep == S.ep[e]
        open == MarketOpenAt(ep.cfg, tick.w)
        ft == [id |-> tick.id, v |-> tick.v \div CENT, inst |-> tick.inst, w |-> tick.w]
        p == ep.pv
    IN  [S EXCEPT
           !.ep[e] = [@ EXCEPT !.last = tick, !.flag = open,
                               !.fss = [j \in 1..Len(@) |-> FrameTick(@[j], ft, open, ep.tz)]],
           !.tr = TLCEval([k \in 1..Len(@) |->
                     IF @[k].rec /\ @[k].e = e THEN Reprice(@[k], CloseSide(@[k].dir, tick))
                     ELSE @[k]])]

\* callbacks an active strategy gets
Calls(before, now) == (IF before # now THEN <<IF now THEN OPENEV ELSE CLOSEEV>> ELSE <<>>)
                      \o (IF now THEN <<MKT>> ELSE <<>>) \o <<EVERY>>

IsActive(st, at) == ~st.stop /\ (st.pause = <<>> \/ Le(st.pause[1], at))
\* a pause is cleared by the first tick at or after its end
Resume(st, at) == IF IsActive(st, at) THEN [st EXCEPT !.pause = <<>>] ELSE st

Pause(S, s, until) == [S EXCEPT !.st[s].pause = <<until>>]
Unpause(S, s)      == [S EXCEPT !.st[s].pause = <<>>]
Stop(S, s, on)     == [S EXCEPT !.st[s].stop = on]
Register(S, e, s)  == [S EXCEPT !.ep[e].regs = Append(@, s)]
\* an order that cannot be taken (no such direction, a moment without a timezone): nobody is asked,
\* nothing is recorded
Refuse(S) == S
AddFrameSet(S, e, fs) == [S EXCEPT !.ep[e].fss = Append(@, fs)]
\* hours, days, holidays and zone may change between ticks; the flag waits for the next one
Configure(S, e, cfg, tz) == [S EXCEPT !.ep[e].cfg = cfg, !.ep[e].tz = tz]
=============================================================================
