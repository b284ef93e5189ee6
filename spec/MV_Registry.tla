------------------------------ MODULE MV_Registry -----------------------------
(***************************************************************************)
(* Frame sets and strategies with colliding and distinct references are    *)
(* registered on two epics in every order, timezones are set, tick         *)
(* providers are made and asked.                                           *)
(***************************************************************************)
EXTENDS Registry, TLC, Json
CONSTANTS Depth, Emit
VARIABLES R, n, out, hist
vars == <<R, n, out, hist>>
Seen == <<R, n, out>>

\* epics A (1) and B (2); frame sets a, a, b; strategies a, b, b
Init == /\ R = [ep |-> <<[ref |-> "A", tz |-> "UTC", fs |-> <<>>, st |-> <<>>],
                         [ref |-> "B", tz |-> "UTC", fs |-> <<>>, st |-> <<>>]>>,
                fs |-> <<[ref |-> "a", e |-> 0, in |-> <<>>], [ref |-> "a", e |-> 0, in |-> <<>>], [ref |-> "b", e |-> 0, in |-> <<>>]>>,
                st |-> <<[ref |-> "a", es |-> <<>>], [ref |-> "b", es |-> <<>>], [ref |-> "b", es |-> <<>>]>>,
                pr |-> <<>>,
                ind |-> <<[ref |-> "a", f |-> 0], [ref |-> "a", f |-> 0]>>]
        /\ n = 0 /\ out = "ok" /\ hist = <<>>

Step(op, new, o) ==
    /\ R' = new /\ out' = o /\ hist' = Append(hist, op)
    /\ n < Depth /\ n' = n + 1
    /\ ((Emit = 1 \/ (Emit = 2 /\ n' = Depth)) => PrintT(<<"HIST", ToJson(hist')>>))

Next ==
    \/ \E e \in 1..2, x \in 1..3 :
          \/ Step([k |-> "addfs", e |-> e, x |-> x], AddFs(R, e, x), IF FsTaken(R, e, x) THEN "no" ELSE "ok")
          \/ Step([k |-> "addst", e |-> e, x |-> x], AddSt(R, e, x), IF StTaken(R, e, x) THEN "no" ELSE "ok")
    \/ \E f \in {1, 3}, x \in 1..2 :
          Attachable(R, f, x) /\ Step([k |-> "addind", f |-> f, x |-> x], Attach(R, f, x), "ok")
    \/ \E e \in 1..2, t \in {<<"Europe/Paris", TRUE>>, <<"Paris", FALSE>>} :
          Step([k |-> "settz", e |-> e, tz |-> t[1], known |-> t[2]], SetTz(R, e, t[1], t[2]),
               IF t[2] THEN "ok" ELSE "no")
    \/ \E eps \in {<<>>, <<1>>, <<2, 1>>} :
          Len(R.pr) < 2 /\ Step([k |-> "provider", eps |-> eps], NewProvider(R, eps), "ok")
    \/ \E r \in {"A", "B", "C"} :
          R.pr # <<>> /\ Step([k |-> "find", p |-> Len(R.pr), ref |-> r], R, "ok")
Spec == Init /\ [][Next]_vars

Refs(ids, objs) == [i \in 1..Len(ids) |-> objs[ids[i]].ref]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
P30_Unique == \A e \in 1..2 : Distinct(Refs(R.ep[e].fs, R.fs)) /\ Distinct(Refs(R.ep[e].st, R.st))
P30_BothWays ==
    /\ \A e \in 1..2, s \in 1..3 : (s \in Range(R.ep[e].st)) = (e \in Range(R.st[s].es))
    /\ \A f \in 1..3 : R.fs[f].e # 0 => f \in Range(R.ep[R.fs[f].e].fs)
    /\ \A f \in 1..3, x \in 1..2 : (x \in Range(R.fs[f].in)) = (R.ind[x].f = f)
    /\ \A x \in 1..2 : IndEpic(R, x) # 0 =>
          \E f \in Range(R.ep[IndEpic(R, x)].fs) : x \in Range(R.fs[f].in)
    /\ \A f \in 1..3 : R.fs[f].e = 0 => \A e \in 1..2 : f \notin Range(R.ep[e].fs)
P30_Known == \A e \in 1..2 : R.ep[e].tz \in {"UTC", "Europe/Paris"}
P30_Find == \A p \in 1..Len(R.pr), r \in {"A", "B", "C"} :
    LET x == Find(R, p, r)
    IN  IF x = 0 THEN \A i \in 1..Len(R.pr[p]) : R.ep[R.pr[p][i]].ref # r
        ELSE x \in Range(R.pr[p]) /\ R.ep[x].ref = r
P30_Refused == [][out' = "no" => R' = R]_vars
P30_KeptIndicators == [][\A f \in 1..3 : SubSeq(R'.fs[f].in, 1, Len(R.fs[f].in)) = R.fs[f].in]_vars
P30_Kept == [][\A e \in 1..2 :
    /\ SubSeq(R'.ep[e].fs, 1, Len(R.ep[e].fs)) = R.ep[e].fs
    /\ SubSeq(R'.ep[e].st, 1, Len(R.ep[e].st)) = R.ep[e].st]_vars
ASSUME PrintT(<<"WORLD", ToJson([ep |-> <<"A", "B">>, fs |-> <<"a", "a", "b">>, st |-> <<"a", "b", "b">>, ind |-> <<"a", "a">>])>>)
=============================================================================
