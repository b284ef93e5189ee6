------------------------------- MODULE Estrade --------------------------------
(***************************************************************************)
(* The trading system as a state machine: epics receive ticks, strategies  *)
(* are called back and may act from inside their callbacks, trades are     *)
(* opened and closed, provider requests start and finish.                  *)
(*                                                                         *)
(* The operators of System say what one operation does to the state; this  *)
(* module composes them into behaviours, with small constants supplied by  *)
(* the models (MC_...), and states the properties independently of how the   *)
(* operators are written.                                                  *)
(*                                                                         *)
(* hist is the sequence of operations performed, hidden from the           *)
(* fingerprint (VIEW Seen): TLC prints it for every transition, and the    *)
(* harness replays it on the code under test.                              *)
(***************************************************************************)
EXTENDS System, Json

CONSTANTS
    World,      \* [ep, nst, pv, gated]: see InitEpic
    Depth,      \* number of operations (callbacks not counted)
    TickSet,    \* set of [e, dt (seconds after the latest instant), bid, ask]
    Start,      \* instant of a first tick with dt = 0
    OpSet,      \* set of operation records enabled outside of callbacks
    NestedSet,  \* set of operation records enabled inside callbacks
    MaxNested,  \* operations inside the callbacks of one tick
    MaxTrades,
    Emit        \* print histories: 0 none, 1 after every transition, 2 only complete ones

VARIABLES S,      \* state (System)
          stack,  \* the ticks being processed, innermost last
          now,    \* latest instant used
          nt,     \* ticks made so far
          nops,   \* operations so far
          G,      \* ghosts: what the properties remember
          hist
vars == <<S, stack, now, nt, nops, G, hist>>
Seen == <<S, stack, now, nt, nops, G>>

(***************************************************************************)
(* Initial state                                                           *)
(***************************************************************************)
WInd(x) == [kind |-> x[1], gated |-> x[2] = 1, p |-> x[3]]
RECURSIVE WAttach(_, _)
WAttach(fs, inds) == IF inds = <<>> THEN fs ELSE WAttach(Attach(fs, WInd(Head(inds))), Tail(inds))

InitEpic(c) ==
    [tz |-> c.tz, pv |-> c.pv, last |-> NoTick, flag |-> FALSE, regs |-> c.regs,
     cfg |-> [open |-> c.open, close |-> c.close, hol |-> c.hol, days |-> c.days],
     fss |-> [j \in 1..Len(c.fs) |-> WAttach(NewFrameSet(c.fs[j].unit, c.fs[j].q, c.fs[j].max),
                                              c.fs[j].inds)]]

InitS == [ep |-> [e \in 1..Len(World.ep) |-> InitEpic(World.ep[e])],
          st |-> [s \in 1..World.nst |-> [stop |-> FALSE, pause |-> <<>>, tr |-> <<>>]],
          pv |-> [p \in 1..Len(World.pv) |-> [bt |-> World.pv[p], tr |-> <<>>]],
          tr |-> <<>>, run |-> {}]

Eps == 1..Len(World.ep)
Sts == 1..World.nst
Pvs == 1..Len(World.pv)

Init == /\ S = InitS
        /\ stack = <<>> /\ now = Start /\ nt = 0 /\ nops = 0 /\ hist = <<>>
        /\ G = [path |-> <<>>,                                 \* results each trade had while open
                evs |-> [x \in Sts \X Eps |-> <<>>],            \* events each strategy got per epic
                off |-> {},                                     \* strategies ever stopped or paused
                sent |-> {},                                    \* requests ever made
                done |-> {}]                                    \* requests finished

(***************************************************************************)
(* Steps                                                                   *)
(***************************************************************************)
Ran(s) == IF World.gated THEN s ELSE FinishAll(s, s.run, s.run)

\* what the ghosts remember of the step S -> new
Remember(g, new) ==
    [g EXCEPT
       !.path = TLCEval([k \in 1..Len(new.tr) |->
                   IF k > Len(S.tr) THEN {Result(new.tr[k])}
                   ELSE IF IsClosed(S.tr[k]) THEN g.path[k]
                   ELSE g.path[k] \cup {Result(new.tr[k])}]),
       !.sent = @ \cup (new.run \ S.run),
       !.done = @ \cup (S.run \ new.run)]

Off(op) == IF op.k \in {"pause", "stop", "unpause"} THEN {op.s} ELSE {}

Tell == (Emit = 1 \/ (Emit = 2 /\ nops' = Depth)) => PrintT(<<"HIST", ToJson(hist')>>)

\* an operation op turning S into raw (requests finish at once unless they are held)
Do(op, raw) ==
    /\ nops < Depth
    /\ nops' = nops + 1
    /\ S' = Ran(raw)
    /\ G' = [Remember(G, raw) EXCEPT !.off = @ \cup Off(op),
                                     !.done = IF World.gated THEN @ ELSE @ \cup raw.run]
    /\ hist' = Append(hist, op)
    /\ (stack = <<>>) => Tell

Mid(bid, ask) == Nearest((bid + ask) \div 2)

\* a tick delivered while the ticks outer (of other epics) are being processed
TickBegin(x, outer) ==
    LET at == AddSec(now, x.dt)
        tk == [id |-> nt + 1, inst |-> at, bid |-> x.bid, ask |-> x.ask, v |-> Mid(x.bid, x.ask),
               w |-> Local(S.ep[x.e].tz, at)]
        ok == Acceptable(S, x.e, tk)
        op == [k |-> "tick", e |-> x.e, inst |-> at, bid |-> x.bid, ask |-> x.ask, ok |-> ok]
    IN  /\ \A i \in 1..Len(outer) : outer[i].e # x.e
        /\ nt' = nt + 1
        /\ now' = IF Lt(now, at) THEN at ELSE now
        /\ IF ~ok
           THEN Do(op, S) /\ stack' = outer
           ELSE LET new == TLCEval(TakeIn(S, x.e, tk))
                IN  /\ nops < Depth
                    /\ nops' = nops + 1
                    /\ S' = new
                    /\ G' = Remember(G, new)
                    /\ hist' = Append(hist, op)
                    /\ stack' = Append(outer,
                                  [e |-> x.e, tk |-> tk, before |-> S.ep[x.e].flag,
                                   pend |-> S.ep[x.e].regs, cur |-> 0, left |-> <<>>,
                                   got |-> <<>>, act |-> {}, n |-> 0, boom |-> FALSE,
                                   nfs |-> Len(S.ep[x.e].fss)])

C == LastOf(stack)
With(c) == Append(Front1(stack), c)

\* the next strategy has its turn: called if active, skipped otherwise
Turn ==
    /\ stack # <<>> /\ C.left = <<>> /\ C.pend # <<>>
    /\ LET s == Head(C.pend)
           active == IsActive(S.st[s], C.tk.inst)
       IN  /\ S' = [S EXCEPT !.st[s] = Resume(@, C.tk.inst)]
           /\ stack' = With([C EXCEPT !.pend = Tail(@), !.cur = s,
                                   !.left = IF active THEN Calls(C.before, S.ep[C.e].flag) ELSE <<>>,
                                   !.act = IF active THEN @ \cup {s} ELSE @])
    /\ UNCHANGED <<now, nt, nops, G, hist>>

Callback ==
    /\ stack # <<>> /\ C.left # <<>>
    /\ stack' = With([C EXCEPT !.left = Tail(@), !.got = Append(@, <<C.cur, Head(C.left)>>)])
    /\ G' = IF Head(C.left) \in {OPENEV, CLOSEEV}
            THEN [G EXCEPT !.evs[<<C.cur, C.e>>] = Append(@, Head(C.left))] ELSE G
    /\ hist' = Append(hist, [k |-> "cb", s |-> C.cur, n |-> Head(C.left)])
    /\ UNCHANGED <<S, now, nt, nops>>

TickEnd ==
    /\ stack # <<>> /\ C.left = <<>> /\ C.pend = <<>>
    /\ stack' = Front1(stack)
    /\ hist' = Append(hist, [k |-> "te"])
    /\ UNCHANGED <<S, now, nt, nops, G>>
    /\ (stack' = <<>>) => Tell

\* what an operation says about the trade or close it makes
Lab(op) == IF "lab" \in DOMAIN op THEN op.lab ELSE NoLabel
Given(op) == IF "q" \in DOMAIN op THEN op.q ELSE <<>>

\* operations; trades are referred to by number, counted from the latest one backwards
Apply(op) ==
    CASE op.k = "open" ->
            /\ Len(S.tr) < MaxTrades
            /\ Do([op EXCEPT !.k = "open"],
                  OpenTrade(S, [TradeFromTick(op.e, op.s, op.dir, op.q, S.ep[op.e].last)
                                EXCEPT !.lab = Lab(op)]))
      [] op.k = "float" ->
            /\ Len(S.tr) < MaxTrades
            /\ Do(op, FloatTrade(S, TradeFromTick(op.e, op.s, op.dir, op.q, S.ep[op.e].last)))
      [] op.k = "close" ->
            LET t == Len(S.tr) - op.back
            IN  /\ t >= 1
                /\ Do([k |-> "close", t |-> t, q |-> op.q, req |-> op.req, lab |-> Lab(op)],
                      LET new == CloseMarket(S, t, op.q, op.req)
                      IN  [new EXCEPT !.tr[t] = LabelClose(@, Lab(op))])
      [] op.k = "closeall" -> S.st[op.s].tr # <<>> /\ Do(op, CloseAll(S, op.s, Given(op)))
      [] op.k = "update" ->
            LET t == Len(S.tr) - op.back
            IN  /\ t >= 1
                /\ Do([k |-> "update", t |-> t, v |-> op.v], [S EXCEPT !.tr[t] = Reprice(@, op.v)])
      [] op.k = "refuse" ->
            LET t == IF op.what = "closed" \/ op.what = "moment" THEN Len(S.tr) - op.back ELSE 0
            IN  /\ t >= (IF op.what = "closed" \/ op.what = "moment" THEN 1 ELSE 0)
                /\ Do([k |-> "refuse", what |-> op.what, e |-> op.e, s |-> op.s, t |-> t, q |-> op.q],
                      Refuse(S))
      [] op.k = "pause" -> Do([k |-> "pause", s |-> op.s, until |-> AddSec(now, op.dt)],
                              Pause(S, op.s, AddSec(now, op.dt)))
      [] op.k = "unpause" -> Do(op, Unpause(S, op.s))
      [] op.k = "stop" -> S.st[op.s].stop # op.on /\ Do(op, Stop(S, op.s, op.on))
      [] op.k = "reg" -> /\ ~\E i \in 1..Len(S.ep[op.e].regs) : S.ep[op.e].regs[i] = op.s
                         /\ Do(op, Register(S, op.e, op.s))
      [] op.k = "finish" ->
            \E r \in S.run :
                Do([k |-> "finish", p |-> r.p, t |-> r.t, c |-> r.c, fail |-> op.fail],
                   Finish(S, r, ~op.fail))
      \* metadata changed in place: of the trade, or of its latest close
      [] op.k = "note" ->
            LET t == Len(S.tr) - op.back
                c == IF op.close /\ t >= 1 THEN Len(S.tr[t].cl) ELSE 0
            IN  /\ t >= 1
                /\ op.close => c > 0
                /\ Do([k |-> "note", t |-> t, c |-> c, v |-> op.v],
                      IF c = 0 THEN [S EXCEPT !.tr[t].lab.meta = op.v]
                      ELSE [S EXCEPT !.tr[t].cl[c].lab.meta = op.v])
      [] op.k = "cfg" -> Do(op, Configure(S, op.e, [open |-> op.open, close |-> op.close,
                                                    hol |-> op.hol, days |-> op.days], S.ep[op.e].tz))
      [] op.k = "addfs" -> Do(op, AddFrameSet(S, op.e, WAttach(
                                  NewFrameSet(op.fs.unit, op.fs.q, op.fs.max), op.fs.inds)))
      \* questions: nothing changes, the code under test is asked
      [] op.k = "trades" -> Do([op EXCEPT !.after = IF op.after = <<>> THEN <<>>
                                                    ELSE <<AddSec(Start, op.after[1])>>], S)
      [] op.k = "figures" -> Do(op, S)
      [] op.k = "report" -> Do(op, S)

Outside == \E op \in OpSet :
    /\ stack = <<>>
    /\ Apply(op)
    /\ UNCHANGED <<stack, now, nt>>

\* inside a callback: an operation, a tick of another epic, or the end of it all
Inside == \E op \in NestedSet :
    /\ stack # <<>> /\ C.got # <<>> /\ LastOf(C.got)[1] = C.cur /\ ~C.boom /\ C.n < MaxNested
    /\ CASE op.k = "tick" -> TickBegin(op, With([C EXCEPT !.n = @ + 1]))
         [] op.k = "raise" ->
               /\ nops < Depth
               /\ nops' = nops + 1
               /\ stack' = With([C EXCEPT !.n = @ + 1, !.boom = TRUE, !.left = <<>>, !.pend = <<>>])
               /\ G' = [G EXCEPT !.off = @ \cup {C.cur} \cup Range(C.pend)]
               /\ hist' = Append(hist, op)
               /\ UNCHANGED <<S, now, nt>>
         [] OTHER ->
               /\ Apply(op)
               /\ stack' = With([C EXCEPT !.n = @ + 1])
               /\ UNCHANGED <<now, nt>>

Next == (stack = <<>> /\ \E x \in TickSet : TickBegin(x, <<>>))
        \/ Turn \/ Callback \/ TickEnd \/ Outside \/ Inside

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties, by the identifiers of properties.jsonl                      *)
(***************************************************************************)
Op == LastOf(hist')
NewOp == hist' # hist

TrSet == 1..Len(S.tr)
QtyOf(R, k) == OpenQty(R.tr[k])

\* P02: accepted instants never decrease; a refused tick changes nothing
P02_Monotone == [][\A e \in Eps : Le(S.ep[e].last.inst, S'.ep[e].last.inst)]_vars
P02_Refused == [][(NewOp /\ Op.k = "tick" /\ Lt(Op.inst, S.ep[Op.e].last.inst)) =>
                    S' = S /\ Len(stack') = Len(stack)]_vars
P02_Accepted == [][(NewOp /\ Op.k = "tick" /\ ~Lt(Op.inst, S.ep[Op.e].last.inst)) =>
                    S'.ep[Op.e].last.inst = Op.inst /\ Len(stack') = Len(stack) + 1]_vars

\* P03: the flag says whether the market is open at the last tick, in seconds of the epic's own day
NotBefore(w, t) == w[2] > t[1] \/ (w[2] = t[1] /\ w[3] >= t[2])
NotAfter(w, t) == w[2] < t[1] \/ (w[2] = t[1] /\ w[3] <= t[2])
Trading(R, e) ==
    LET w == Local(R.ep[e].tz, R.ep[e].last.inst)
        c == R.ep[e].cfg
    IN  /\ NotBefore(w, c.open) /\ NotAfter(w, c.close)
        /\ \E i \in 1..Len(c.days) : (w[1] - 4 - c.days[i]) % 7 = 0    \* 1970-01-05 was a Monday
        /\ \A i \in 1..Len(c.hol) : CivilFromDays(w[1]) # c.hol[i]
P03_Flag == [][\A e \in Eps :
    S'.ep[e].flag = IF S'.ep[e].last.id # S.ep[e].last.id THEN Trading(S', e) ELSE S.ep[e].flag]_vars

\* P04: what a finished tick has called, from the registrations
Times(s, n) == Cardinality({i \in 1..Len(C.got) : C.got[i] = <<s, n>>})
Finished == stack # <<>> /\ ~C.boom /\ C.left = <<>> /\ C.pend = <<>>
P04_Calls == Finished => \A s \in Sts :
    /\ Times(s, EVERY) = IF s \in C.act THEN 1 ELSE 0
    /\ Times(s, MKT) = IF s \in C.act /\ S.ep[C.e].flag THEN 1 ELSE 0
    /\ s \in C.act => s \in Range(S.ep[C.e].regs)
P04_Order == stack # <<>> => \A i, j \in 1..Len(C.got) : i < j =>
    \/ C.got[i][1] = C.got[j][1] /\ C.got[i][2] < C.got[j][2]
    \/ \E a, b \in 1..Len(S.ep[C.e].regs) :
          a < b /\ S.ep[C.e].regs[a] = C.got[i][1] /\ S.ep[C.e].regs[b] = C.got[j][1]

\* P05: events of a strategy never stopped nor paused alternate, starting with open
Registered(s, e) == \E i \in 1..Len(World.ep[e].regs) : World.ep[e].regs[i] = s
P05_Alternate == \A s \in Sts \ G.off, e \in Eps : Registered(s, e) =>
    \A i \in 1..Len(G.evs[<<s, e>>]) :
        G.evs[<<s, e>>][i] = IF i % 2 = 1 THEN OPENEV ELSE CLOSEEV
P05_Last == \A s \in Sts \ G.off, e \in Eps : (Registered(s, e) /\ stack = <<>>) =>
    S.ep[e].flag = (Len(G.evs[<<s, e>>]) % 2 = 1)

\* P06: nobody stopped or paused is called; whoever is not, is
HasTurn(s) == stack # <<>> /\ Len(stack') = Len(stack) /\ C.cur # s /\ LastOf(stack').cur = s
P06_Active == [][\A s \in Sts : HasTurn(s) =>
    ((s \in LastOf(stack').act) = (~S.st[s].stop /\ (S.st[s].pause = <<>> \/ ~Lt(C.tk.inst, S.st[s].pause[1]))))]_vars
P06_Resumed == [][\A s \in Sts : (HasTurn(s) /\ s \in LastOf(stack').act) => S'.st[s].pause = <<>>]_vars
P06_Others == [][(NewOp /\ Op.k \in {"pause", "unpause", "stop"}) =>
    \A s \in Sts \ {Op.s} : S'.st[s] = S.st[s]]_vars

\* P07: inside callbacks everything is up to date
P07_Updated == \A i \in 1..Len(stack) : LET c == stack[i] IN
    /\ S.ep[c.e].last = c.tk
    /\ \A j \in 1..c.nfs : Current(S.ep[c.e].fss[j]).a = c.tk.id
    /\ \A k \in TrSet : (S.tr[k].e = c.e /\ S.tr[k].rec /\ ~IsClosed(S.tr[k])) =>
            S.tr[k].cv = IF S.tr[k].dir = BUY THEN c.tk.bid ELSE c.tk.ask
P07_Priced == [][(NewOp /\ stack # <<>> /\ Op.k = "open" /\ Op.e = C.e /\ Len(S'.tr) > Len(S.tr)) =>
    LastOf(S'.tr).ov = IF Op.dir = BUY THEN C.tk.ask ELSE C.tk.bid]_vars

\* P08: an operation on one epic leaves the others and their trades alone
OnEpic(op) == CASE op.k \in {"tick", "open", "float", "reg", "cfg", "addfs"} -> op.e
                [] op.k \in {"close", "update", "note"} -> S'.tr[op.t].e
                [] OTHER -> 0
P08_Isolated == [][(NewOp /\ Op.k \notin {"cb", "te"} /\ OnEpic(Op) # 0) =>
    /\ \A e \in Eps \ {OnEpic(Op)} : S'.ep[e] = S.ep[e]
    /\ \A k \in TrSet : S.tr[k].e # OnEpic(Op) => S'.tr[k] = S.tr[k]]_vars
P08_TradesKeepTicks == [][(NewOp /\ Op.k # "tick") => \A e \in Eps :
    S'.ep[e].last = S.ep[e].last /\ S'.ep[e].flag = S.ep[e].flag]_vars

\* P09: quantities
P09_Bounds == \A k \in TrSet :
    /\ \A i \in 1..Len(S.tr[k].cl) : S.tr[k].cl[i].q \in 0..S.tr[k].oq
    /\ ClosedQty(S.tr[k]) \in 0..S.tr[k].oq
P09_Close == [][(NewOp /\ Op.k = "close") =>
    LET before == QtyOf(S, Op.t)
        taken == before - QtyOf(S', Op.t)
    IN  /\ LastOf(S'.tr[Op.t].cl).q = taken
        /\ taken >= 0
        /\ Op.q = <<>> => taken = before
        /\ Op.q # <<>> => taken <= Op.q[1] /\ (taken = Op.q[1] \/ taken = before)]_vars
P09_Market == [][(NewOp /\ Op.k = "close" /\ OpenQty(S.tr[Op.t]) > 0) =>
    LET t == S'.tr[Op.t]  v == CloseSide(t.dir, S.ep[t.e].last)
    IN  LastOf(t.cl).v = v /\ LastOf(t.cl).at = S.ep[t.e].last.inst /\ t.cv = v]_vars
P09_Final == [][\A k \in TrSet : IsClosed(S.tr[k]) => IsClosed(S'.tr[k])]_vars

\* P10: results are money: what closing brought in, plus what the rest is worth, minus the cost
Worth(t) == t.cv * OpenQty(t) + SumSeq([i \in 1..Len(t.cl) |-> t.cl[i].v * t.cl[i].q])
P10_Money == \A k \in TrSet : Result(S.tr[k]) = S.tr[k].dir * (Worth(S.tr[k]) - S.tr[k].ov * S.tr[k].oq)
P10_Split == \A k \in TrSet : Result(S.tr[k]) = OpenResult(S.tr[k]) + ClosedResult(S.tr[k])
P10_Spread == [][\A k \in 1..Len(S'.tr) : k > Len(S.tr) =>
    Result(S'.tr[k]) = -(S'.ep[S'.tr[k].e].last.ask - S'.ep[S'.tr[k].e].last.bid) * S'.tr[k].oq]_vars

\* P11: closes and closed trades are final (labels: P31)
Figures(c) == <<c.q, c.v, c.at, c.req>>
P11_Closes == [][\A k \in TrSet :
    /\ Len(S'.tr[k].cl) >= Len(S.tr[k].cl)
    /\ \A i \in 1..Len(S.tr[k].cl) : Figures(S'.tr[k].cl[i]) = Figures(S.tr[k].cl[i])]_vars
P11_Closed == [][\A k \in TrSet : IsClosed(S.tr[k]) =>
    /\ Result(S'.tr[k]) = Result(S.tr[k])
    /\ S'.tr[k].mx = S.tr[k].mx /\ S'.tr[k].mn = S.tr[k].mn /\ S'.tr[k].cv = S.tr[k].cv]_vars

\* P12: extremes over the path
P12_Extremes == \A k \in TrSet : S.tr[k].mx = MaxSet(G.path[k]) /\ S.tr[k].mn = MinSet(G.path[k])

\* P13: netting
Position(R, e, s) == SumSeq([k \in 1..Len(R.tr) |->
    IF R.tr[k].rec /\ R.tr[k].e = e /\ R.tr[k].s = s THEN R.tr[k].dir * OpenQty(R.tr[k]) ELSE 0])
Backtest(e) == World.pv[World.ep[e].pv]
P13_Net == [][(NewOp /\ Op.k = "open" /\ Backtest(Op.e)) =>
    Position(S', Op.e, Op.s) = Position(S, Op.e, Op.s) + Op.dir * Op.q]_vars
P13_OneDirection == \A j, k \in TrSet :
    (/\ S.tr[j].rec /\ S.tr[k].rec /\ S.tr[j].e = S.tr[k].e /\ S.tr[j].s = S.tr[k].s
     /\ Backtest(S.tr[j].e) /\ ~IsClosed(S.tr[j]) /\ ~IsClosed(S.tr[k])) => S.tr[j].dir = S.tr[k].dir
P13_NewestFirst == [][(NewOp /\ Op.k = "open") => \A j, k \in TrSet :
    (/\ j < k /\ S.tr[j].e = Op.e /\ S.tr[k].e = Op.e /\ S.tr[j].s = Op.s /\ S.tr[k].s = Op.s
     /\ S.tr[j].rec /\ S.tr[k].rec
     /\ QtyOf(S', j) < QtyOf(S, j)) => QtyOf(S', k) = 0]_vars
P13_Untouched == [][(NewOp /\ Op.k = "open") => \A k \in TrSet :
    (S.tr[k].e # Op.e \/ S.tr[k].s # Op.s \/ S.tr[k].dir = Op.dir \/ ~S.tr[k].rec) => S'.tr[k] = S.tr[k]]_vars
\* nothing is closed by nothing
P13_Reduced == [][(NewOp /\ Op.k = "open") => \A k \in TrSet :
    S'.tr[k] # S.tr[k] => QtyOf(S', k) < QtyOf(S, k) /\ Len(S'.tr[k].cl) = Len(S.tr[k].cl) + 1]_vars
P13_Recorded == [][(NewOp /\ Op.k = "open") =>
    /\ Len(S'.tr) = Len(S.tr) + 1
    /\ LastOf(S'.tr).rec = (LastOf(S'.tr).oq > 0)]_vars

\* P14: registries
P14_Once == \A p \in Pvs : \A i, j \in 1..Len(S.pv[p].tr) : S.pv[p].tr[i] = S.pv[p].tr[j] => i = j
P14_Exactly == \A k \in TrSet :
    /\ S.tr[k].rec = (\E i \in 1..Len(S.pv[World.ep[S.tr[k].e].pv].tr) :
                          S.pv[World.ep[S.tr[k].e].pv].tr[i] = k)
    /\ S.tr[k].s # 0 => S.tr[k].rec = (\E i \in 1..Len(S.st[S.tr[k].s].tr) : S.st[S.tr[k].s].tr[i] = k)
P14_Ordered == \A p \in Pvs : \A i, j \in 1..Len(S.pv[p].tr) : i < j => S.pv[p].tr[i] < S.pv[p].tr[j]
P14_Opened == \A p \in Pvs :
    /\ Range(Opened(S, p)) = {k \in Range(S.pv[p].tr) : OpenQty(S.tr[k]) > 0}
    /\ \A i, j \in 1..Len(Opened(S, p)) : i < j => Opened(S, p)[i] > Opened(S, p)[j]
P14_Append == [][\A p \in Pvs : SubSeq(S'.pv[p].tr, 1, Len(S.pv[p].tr)) = S.pv[p].tr]_vars
P14_Live == [][(NewOp /\ Op.k = "open" /\ ~Backtest(Op.e)) =>
    /\ LastOf(S'.tr).oq = Op.q /\ LastOf(S'.tr).rec
    /\ \A k \in TrSet : S'.tr[k] = S.tr[k]]_vars

\* P15: exactly one request per recorded trade and per close sent to the provider
Due == {[p |-> World.ep[S.tr[k].e].pv, t |-> k, c |-> 0] : k \in {j \in TrSet : S.tr[j].rec}}
       \cup UNION {{[p |-> World.ep[S.tr[k].e].pv, t |-> k, c |-> i] :
                       i \in {j \in 1..Len(S.tr[k].cl) : S.tr[k].cl[j].req}} : k \in TrSet}
P15_Requests == G.sent = Due
P15_Alive == \A p \in Pvs : Alive(S, p) = (\E r \in G.sent \ G.done : r.p = p)
NoStatus(tr) == TLCEval([k \in 1..Len(tr) |->
    [tr[k] EXCEPT !.lab.st = 0, !.cl = [i \in 1..Len(@) |-> [@[i] EXCEPT !.lab.st = 0]]]])
P15_Finish == [][(NewOp /\ Op.k = "finish") =>
    NoStatus(S'.tr) = NoStatus(S.tr) /\ S'.pv = S.pv /\ Cardinality(S.run) = Cardinality(S'.run) + 1]_vars

\* P16: queries
Wanted(s, eps, oo, after) ==
    {k \in TrSet : /\ \E i \in 1..Len(S.st[s].tr) : S.st[s].tr[i] = k
                   /\ eps # <<>> => S.tr[k].e \in Range(eps[1])
                   /\ oo => OpenQty(S.tr[k]) > 0
                   /\ after # <<>> => ~Lt(S.tr[k].at, after[1])}
P16_Queries == \A s \in Sts, oo \in BOOLEAN :
    \A eps \in {<<>>} \cup {<<<<e>>>> : e \in Eps} \cup {<<<<>>>>} :
    \A after \in {<<>>} \cup {<<S.tr[k].at>> : k \in TrSet} :
        LET out == TradesOf(S, s, eps, oo, after)
        IN  /\ Range(out) = Wanted(s, eps, oo, after)
            /\ \A i, j \in 1..Len(out) : i < j => out[i] > out[j]
P16_CloseSome == [][(NewOp /\ Op.k = "closeall" /\ Given(Op) # <<>>) => \A k \in TrSet :
    IF k \in Range(S.st[Op.s].tr) /\ OpenQty(S.tr[k]) > 0
    THEN OpenQty(S.tr[k]) - OpenQty(S'.tr[k]) = Min2(Given(Op)[1], OpenQty(S.tr[k]))
    ELSE S'.tr[k] = S.tr[k]]_vars
P16_CloseAll == [][(NewOp /\ Op.k = "closeall" /\ Given(Op) = <<>>) => \A k \in TrSet :
    IF k \in Range(S.st[Op.s].tr) /\ OpenQty(S.tr[k]) > 0
    THEN /\ OpenQty(S'.tr[k]) = 0
         /\ LastOf(S'.tr[k].cl).v = CloseSide(S.tr[k].dir, S.ep[S.tr[k].e].last)
    ELSE S'.tr[k] = S.tr[k]]_vars

\* P17: aggregates: order does not matter, gains and losses split the result
P17_Split == \A s \in Sts :
    SumResults(S, S.st[s].tr) = SumGains(S, S.st[s].tr) - SumLosses(S, S.st[s].tr)
P17_Reverse == \A s \in Sts : SumResults(S, S.st[s].tr) = SumResults(S, Rev(S.st[s].tr))

\* P31: what trades and closes are labelled with
Labels(x) == <<x.lab.ref, x.lab.meta>>
P31_Given == [][NewOp =>
    /\ Op.k = "open" => Labels(LastOf(S'.tr)) = <<Lab(Op).ref, Lab(Op).meta>>
    /\ Op.k = "close" => Labels(LastOf(S'.tr[Op.t].cl)) = <<Lab(Op).ref, Lab(Op).meta>>
    /\ Op.k = "note" => Op.v = IF Op.c = 0 THEN S'.tr[Op.t].lab.meta
                               ELSE S'.tr[Op.t].cl[Op.c].lab.meta]_vars
Noted(k, c) == NewOp /\ Op.k = "note" /\ Op.t = k /\ Op.c = c
P31_Kept == [][\A k \in TrSet :
    /\ S'.tr[k].lab.ref = S.tr[k].lab.ref
    /\ Noted(k, 0) \/ S'.tr[k].lab.meta = S.tr[k].lab.meta
    /\ \A i \in 1..Len(S.tr[k].cl) :
          /\ S'.tr[k].cl[i].lab.ref = S.tr[k].cl[i].lab.ref
          /\ Noted(k, i) \/ S'.tr[k].cl[i].lab.meta = S.tr[k].cl[i].lab.meta]_vars
\* a status changes when the request about it ends well, to the provider's answer
Ended(t, c) == \E r \in S.run \ S'.run : r.t = t /\ r.c = c
Says(x, y, k, c) == y.lab.st = IF Ended(k, c) /\ ~Op.fail THEN Answer(S, World.ep[S.tr[k].e].pv)
                               ELSE x.lab.st
P31_Status == [][\A k \in TrSet :
    /\ Says(S.tr[k], S'.tr[k], k, 0)
    /\ \A i \in 1..Len(S.tr[k].cl) : Says(S.tr[k].cl[i], S'.tr[k].cl[i], k, i)]_vars
P31_Served == ~World.gated => \A k \in TrSet :
    /\ S.tr[k].rec => S.tr[k].lab.st = Answer(S, World.ep[S.tr[k].e].pv)
    /\ \A i \in 1..Len(S.tr[k].cl) :
          S.tr[k].cl[i].req => S.tr[k].cl[i].lab.st = Answer(S, World.ep[S.tr[k].e].pv)

\* P32: a failing callback ends the processing of its tick, nothing else
P32_Stays == [][(NewOp /\ Op.k = "raise") =>
    S' = S /\ Front1(stack') = Front1(stack) /\ LastOf(stack').got = C.got]_vars
P32_Ended == [][\A i \in 1..Len(stack) : (stack[i].boom /\ Len(stack') >= i) =>
    stack'[i].got = stack[i].got]_vars

\* P33: an order that cannot be taken changes nothing at all, inside a callback or outside
P33_Nothing == [][(NewOp /\ Op.k = "refuse") =>
    /\ S' = S /\ G'.sent = G.sent /\ G'.path = G.path /\ Len(stack') = Len(stack)
    /\ \A i \in 1..Len(stack) : stack'[i].got = stack[i].got /\ stack'[i].left = stack[i].left]_vars
=============================================================================
