------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Shared vocabulary: money is an integer number of units of 0.0001 (so a  *)
(* cent is 100 units), an optional value is a sequence of length 0 or 1.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CENT == 100

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

LastOf(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
\* the last n elements of s (all of them when there are fewer)
Suffix(s, n) == IF n <= 0 THEN <<>>
                ELSE IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

RECURSIVE SelectSeqIdx(_, _)
\* indices (in order) of the elements of s that satisfy the set of indices Ok
SelectSeqIdx(n, Ok) == IF n = 0 THEN <<>>
                       ELSE IF n \in Ok THEN Append(SelectSeqIdx(n - 1, Ok), n)
                       ELSE SelectSeqIdx(n - 1, Ok)

(***************************************************************************)
(* Rounding to the nearest integer of num/den (den > 0).  On an exact tie  *)
(* both neighbours are acceptable: which one a binary floating point       *)
(* computation gives is not part of any property.                          *)
(***************************************************************************)
RoundSet(num, den) ==
    LET q == (2 * num + den) \div (2 * den)
    IN  IF (2 * num + den) % (2 * den) = 0 THEN {q, q - 1} ELSE {q}

\* v (units) is num/den (units) to the nearest cent
ToCent(v, num, den) == /\ v % CENT = 0
                       /\ (v \div CENT) \in RoundSet(num, den * CENT)
\* v (units) is num/den (cents) to the nearest cent
CentsToCent(v, num, den) == /\ v % CENT = 0
                            /\ (v \div CENT) \in RoundSet(num, den)

\* names of the clauses of cs (a set of <<name, holds>>) that do not hold
Failing(cs) == {c[1] : c \in {d \in cs : ~d[2]}}
=============================================================================
