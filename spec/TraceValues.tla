----------------------------- MODULE TraceValues ------------------------------
(***************************************************************************)
(* Validation of recorded quotes (P01) and timeframe boundaries (P20).     *)
(* Every event stands on its own.                                          *)
(***************************************************************************)
EXTENDS Quote, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Focus == IOEnv.TRACE_FOCUS
On(p) == Focus = "ALL" \/ Focus = p

VARIABLES tid, i
View == <<tid, i>>
T == Data.traces[tid]

\* ev: num, unit, bid, ask, aware, inst -> ok, same (bid and ask as given), sp, v (cents),
\* w (wall clock given), ws (wall clocks shown), tx (the same, as text to the second),
\* given, meta (entries of the metadata given and shown), at (instants reported by datetime, datetime_utc and asdict), dict (asdict agrees)
QuoteClauses(ev) ==
    LET good == Accepted(ev.num, ev.bid, ev.ask, ev.aware) IN
    IF ~On("P01") THEN {}
    ELSE IF ~good THEN { <<"P01.refused", ev.ok \notin {"ok", "hang"}>>,
                         <<"P01.estrade_error", ev.err>> }
    ELSE IF ev.ok # "ok" THEN { <<"P01.accepted", FALSE>> }
    ELSE { <<"P01.prices", ev.same>>,
           <<"P01.instant", \A k \in 1..Len(ev.at) : ev.at[k] = ev.inst>>,
           <<"P01.spread", ev.sp \in Spreads(ev.bid, ev.ask, ev.unit)>>,
           <<"P01.value", ValueOK(ev.v, ev.bid, ev.ask, ev.unit)>>,
           <<"P01.asdict", ev.dict>>,
           <<"P01.meta", ev.meta = ev.given>>,
           <<"P01.clock", \A k \in 1..Len(ev.ws) : ev.ws[k] = ev.w>>,
           <<"P01.text", \A k \in 1..Len(ev.tx) : ev.tx[k] = <<ev.w[1], ev.w[2], 0>>>> }

\* ev: unit, q -> ok
NewClauses(ev) ==
    IF ~On("P20") THEN {}
    ELSE IF ValidQuantity(ev.unit, ev.q) THEN { <<"P20.accepted", ev.ok = "ok">> }
    ELSE { <<"P20.refused", ev.ok = "estrade:TimeFrameException">> }

\* a reported boundary: its wall reading b.w and instant b.i; w is the grid point
Shown(b, w) ==
    /\ b.w = w \/ b.w = Resolve(T.tz, w)
    /\ (T.exact /\ Exists(T.tz, w)) => b.i \in Showing(T.tz, w)

\* ev: unit, q, inst -> s, e (start of the timeframe of inst; its end), ok
GridClauses(ev) ==
    IF ~On("P20") THEN {}
    ELSE IF ev.ok # "ok" THEN { <<"P20.outcome", FALSE>> }
    ELSE LET w == Local(T.tz, ev.inst)
             g == GridStart(ev.unit, ev.q, w)
             n == GridNext(ev.unit, ev.q, g)
         IN  IF ev.unit = TICK
             THEN { <<"P20.tick_start", ev.s = [w |-> w, i |-> ev.inst]>>,
                    <<"P20.tick_end", ev.e = [w |-> w, i |-> ev.inst]>> }
             ELSE { <<"P20.start", Shown(ev.s, g)>>,
                    <<"P20.end", Shown(ev.e, n)>>,
                    <<"P20.order", Le(ev.s.w, w) \/ ~Exists(T.tz, g)>>,
                    <<"P20.end_after", Lt(w, ev.e.w)>> }

Clauses(ev) == CASE ev.k = "quote" -> QuoteClauses(ev)
                 [] ev.k = "new" -> NewClauses(ev)
                 [] ev.k = "grid" -> GridClauses(ev)

Init == tid \in 1..Len(Data.traces) /\ i = 0
Next == /\ i < Len(T.ev)
        /\ i' = i + 1
        /\ UNCHANGED tid
        /\ LET bad == Failing(Clauses(T.ev[i + 1]))
           IN  bad # {} => PrintT(<<"BAD", tid, i + 1, bad>>)
Spec == Init /\ [][Next]_<<tid, i>>
=============================================================================
