------------------------------- MODULE TraceReg -------------------------------
(***************************************************************************)
(* Validation of recorded registrations (P30) against Registry.            *)
(***************************************************************************)
EXTENDS Registry, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Focus == IOEnv.TRACE_FOCUS

VARIABLES tid, i, R, dead
View == <<tid, i>>
T == Data.traces[tid]

\* o: what every object shows, as pairs <<reference, object>>
ObsClauses(new, o) ==
    LET n == Len(new.ep)
        same == Len(o.ep) = n /\ Len(o.fs) = Len(new.fs) /\ Len(o.st) = Len(new.st)
               /\ Len(o.ind) = Len(new.ind)
    IN  IF ~same THEN {<<"P30.objects", FALSE>>}
        ELSE {
          <<"P30.refs", /\ \A e \in 1..n : o.ep[e].ref = new.ep[e].ref
                        /\ \A f \in 1..Len(new.fs) : o.fs[f].ref = new.fs[f].ref
                        /\ \A s \in 1..Len(new.st) : o.st[s].ref = new.st[s].ref>>,
          <<"P30.timezone", \A e \in 1..n : o.ep[e].tz = new.ep[e].tz>>,
          <<"P30.frame_sets", \A e \in 1..n :
               /\ Len(o.ep[e].fs) = Len(new.ep[e].fs)
               /\ Range(o.ep[e].fs) = {<<new.fs[f].ref, f>> : f \in Range(new.ep[e].fs)}>>,
          <<"P30.strategies", \A e \in 1..n :
               /\ Len(o.ep[e].st) = Len(new.ep[e].st)
               /\ Range(o.ep[e].st) = {<<new.st[s].ref, s>> : s \in Range(new.ep[e].st)}>>,
          <<"P30.frame_set_epic", \A f \in 1..Len(new.fs) : o.fs[f].e = new.fs[f].e>>,
          <<"P30.indicators", \A f \in 1..Len(new.fs) :
               /\ Len(o.fs[f].in) = Len(new.fs[f].in)
               /\ Range(o.fs[f].in) = {<<new.ind[x].ref, x>> : x \in Range(new.fs[f].in)}>>,
          <<"P30.indicator_links", \A x \in 1..Len(new.ind) :
               /\ o.ind[x].ref = new.ind[x].ref
               /\ o.ind[x].f = new.ind[x].f
               /\ o.ind[x].e = IndEpic(new, x)>>,
          <<"P30.strategy_epics", \A s \in 1..Len(new.st) :
               /\ Len(o.st[s].es) = Len(new.st[s].es)
               /\ Range(o.st[s].es) = {<<new.ep[e].ref, e>> : e \in Range(new.st[s].es)}>> }

Step(ev) ==
    CASE ev.k = "epic" -> NewEpic(R, ev.ref, ev.tz, ev.known)
      [] ev.k = "newfs" -> NewFs(R, ev.ref)
      [] ev.k = "newst" -> NewSt(R, ev.ref)
      [] ev.k = "newind" -> NewInd(R, ev.ref)
      [] ev.k = "addind" -> Attach(R, ev.f, ev.x)
      [] ev.k = "addfs" -> AddFs(R, ev.e, ev.x)
      [] ev.k = "addst" -> AddSt(R, ev.e, ev.x)
      [] ev.k = "settz" -> SetTz(R, ev.e, ev.tz, ev.known)
      [] ev.k = "provider" -> NewProvider(R, ev.eps)
      [] ev.k \in {"find", "default"} -> R

Outcome(ev) ==
    CASE ev.k \in {"epic", "settz"} ->
            IF ev.known THEN {<<"P30.timezone_accepted", ev.ok = "ok">>}
            ELSE {<<"P30.timezone_refused", ev.ok \notin {"ok", "hang"}>>}
      [] ev.k \in {"newfs", "newst", "newind", "provider"} -> {<<"P30.created", ev.ok = "ok">>}
      [] ev.k = "addfs" ->
            IF FsTaken(R, ev.e, ev.x) THEN {<<"P30.frame_set_refused", ev.ok = "estrade:EpicException">>}
            ELSE {<<"P30.frame_set_added", ev.ok = "ok">>}
      [] ev.k = "addind" -> {<<"P30.indicator_added", ev.ok = "ok">>}
      [] ev.k = "addst" ->
            IF StTaken(R, ev.e, ev.x) THEN {<<"P30.strategy_refused", ev.ok = "estrade:EpicException">>}
            ELSE {<<"P30.strategy_added", ev.ok = "ok">>}
      [] ev.k = "find" -> {<<"P30.found", ev.ok = "ok" /\ ev.out = Find(R, ev.p, ev.ref)>>}
      [] ev.k = "default" -> {<<"P30.default_ref", ev.ok = "ok" /\ ev.good>>}

Init == tid \in 1..Len(Data.traces) /\ i = 0 /\ R = Empty /\ dead = FALSE
Next == /\ i < Len(T.ev)
        /\ i' = i + 1
        /\ UNCHANGED tid
        /\ IF dead THEN UNCHANGED <<R, dead>>
           ELSE LET ev == T.ev[i + 1]
                    new == Step(ev)
                    bad == Failing(Outcome(ev) \cup ObsClauses(new, ev.o))
                IN  /\ R' = new
                    /\ dead' = (bad # {})
                    /\ bad # {} => PrintT(<<"BAD", tid, i + 1, bad>>)
Spec == Init /\ [][Next]_<<tid, i, R, dead>>
=============================================================================
