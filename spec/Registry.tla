------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Epics, frame sets, strategies and tick providers by reference.          *)
(*                                                                         *)
(* R == [ep, fs, st, pr]; ep: sequence of [ref, tz, fs, st] with fs and st *)
(* sequences of object numbers in registration order; fs: sequence of      *)
(* [ref, e (epic, 0: none), in (indicators)]; ind: sequence of              *)
(* [ref, f (frame set, 0: none)]; st: sequence of [ref, es (epics, in order)];  *)
(* pr: sequence of sequences of epics.                                     *)
(***************************************************************************)
EXTENDS Common

Empty == [ep |-> <<>>, fs |-> <<>>, st |-> <<>>, pr |-> <<>>, ind |-> <<>>]

FsTaken(R, e, f) == \E k \in 1..Len(R.ep[e].fs) : R.fs[R.ep[e].fs[k]].ref = R.fs[f].ref
StTaken(R, e, s) == \E k \in 1..Len(R.ep[e].st) : R.st[R.ep[e].st[k]].ref = R.st[s].ref

NewEpic(R, ref, tz, known) ==
    IF ~known THEN R ELSE [R EXCEPT !.ep = Append(@, [ref |-> ref, tz |-> tz, fs |-> <<>>, st |-> <<>>])]
NewFs(R, ref) == [R EXCEPT !.fs = Append(@, [ref |-> ref, e |-> 0, in |-> <<>>])]
NewInd(R, ref) == [R EXCEPT !.ind = Append(@, [ref |-> ref, f |-> 0])]
NewSt(R, ref) == [R EXCEPT !.st = Append(@, [ref |-> ref, es |-> <<>>])]
NewProvider(R, eps) == [R EXCEPT !.pr = Append(@, eps)]

AddFs(R, e, f) ==
    IF FsTaken(R, e, f) THEN R
    ELSE [R EXCEPT !.ep[e].fs = Append(@, f), !.fs[f].e = e]

\* an indicator without a frame set, put on one where its reference is free
Attachable(R, f, x) == /\ R.ind[x].f = 0
                       /\ \A k \in 1..Len(R.fs[f].in) : R.ind[R.fs[f].in[k]].ref # R.ind[x].ref
Attach(R, f, x) == [R EXCEPT !.fs[f].in = Append(@, x), !.ind[x].f = f]
\* the epic of an indicator is that of its frame set (0: none)
IndEpic(R, x) == IF R.ind[x].f = 0 THEN 0 ELSE R.fs[R.ind[x].f].e

AddSt(R, e, s) ==
    IF StTaken(R, e, s) THEN R
    ELSE [R EXCEPT !.ep[e].st = Append(@, s), !.st[s].es = Append(@, e)]

SetTz(R, e, tz, known) == IF known THEN [R EXCEPT !.ep[e].tz = tz] ELSE R

\* the epic a provider finds under a reference (0: none)
Find(R, p, ref) ==
    LET S == {k \in 1..Len(R.pr[p]) : R.ep[R.pr[p][k]].ref = ref}
    IN  IF S = {} THEN 0 ELSE R.pr[p][CHOOSE k \in S : TRUE]
=============================================================================
