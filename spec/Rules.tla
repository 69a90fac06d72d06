-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Decision rules of the optimizer as pure operators over integers.        *)
(*                                                                         *)
(* Numbers are either small exact integers (exhaustive configurations) or  *)
(* ranks, i.e. order-isomorphic images of the floating point numbers that  *)
(* occur in one recorded run (trace validation).  All rules below only     *)
(* compare numbers, so they are valid under both readings; products such   *)
(* as radius * shrinking factor enter as separate numbers.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
Range(f) == {f[k] : k \in DOMAIN f}
SetMin(S) == CHOOSE m \in S : \A k \in S : m <= k
SetMax(S) == CHOOSE m \in S : \A k \in S : m >= k

(* smallest multiple of base that is at least n (n >= 0, base >= 1) *)
NextMultiple(n, base) == ((n + base - 1) \div base) * base

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

CountOf(q, v) == Cardinality({k \in DOMAIN q : q[k] = v})

(* set of a rule's outcomes clipped to [lo, hi]; hi below lo counts as lo  *)
Clip(v, lo, hi) == Min2(Max2(v, lo), Max2(lo, hi))

(***************************************************************************)
(* Trust region radius.                                                    *)
(*  r, rs, re : radius, radius * shrinking factor, radius * expansion      *)
(*  incOk     : rho >= rho_increase                                        *)
(*  decOk     : rho >= rho_decrease                                        *)
(*  large     : step_length / radius >= large_step                         *)
(*  more      : number of evaluations per point was just increased         *)
(***************************************************************************)
RadiusRaw(r, rs, re, incOk, decOk, large, more) ==
  IF incOk /\ large THEN re
  ELSE IF decOk \/ more THEN r
  ELSE rs

RadiusRule(r, rs, re, incOk, decOk, large, more, lo, cap) ==
  Clip(RadiusRaw(r, rs, re, incOk, decOk, large, more), lo, cap)

(***************************************************************************)
(* Evaluations per point.  hi and lo count the simulated ratios above the  *)
(* high and low threshold among n; the shares are rationals num/den.       *)
(***************************************************************************)
NEvalsRule(nev, n, hi, lo, good, hiNum, hiDen, loNum, loDen, nmin, nmax) ==
  IF hi * hiDen > hiNum * n THEN Max2(nev - 1, nmin)
  ELSE IF lo * loDen > loNum * n \/ good THEN nev
  ELSE Min2(nev + 1, nmax)

(***************************************************************************)
(* Acceptance: fin = candidate value is finite, shifted = candidate value  *)
(* plus the minimum improvement, cur = value of the current point.         *)
(***************************************************************************)
Accepts(fin, shifted, cur) == fin /\ shifted <= cur

(***************************************************************************)
(* Convergence.  t is a sequence with one entry per test: -1 if the        *)
(* measure is within its tolerance, 1 if it is not and 0 if the comparison *)
(* is a floating point borderline case.                                    *)
(***************************************************************************)
SomeTestPassed(t) == \E k \in DOMAIN t : t[k] = -1
NoTestPassed(t) == \A k \in DOMAIN t : t[k] = 1

(***************************************************************************)
(* Filters                                                                 *)
(***************************************************************************)
DropExcessSize(n, target, factorNum, factorDen) ==
  Min2(n, (target * factorNum) \div factorDen)
==============================================================================
