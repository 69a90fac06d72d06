------------------------------- MODULE Wrapped -------------------------------
(***************************************************************************)
(* The criterion as the optimizer calls it: a request maps points to       *)
(* numbers of evaluations, one batch is evaluated, and every outcome is    *)
(* stored under its point.                                                 *)
(*   c.ft    functype                c.npts  number of points 0..npts-1    *)
(*   c.pre   points of earlier evaluations, the k-th has the value k       *)
(*   c.info  request, a sequence of [i, n]                                 *)
(*   c.script  outcome of the k-th argument of the batch ("ok", "exc",     *)
(*             "nan", "nanall", "inf", "ninf")                             *)
(*   c.cores                                                               *)
(* Values are integers, +-INF stands for infinity.                         *)
(***************************************************************************)
EXTENDS History

WINF == 2000000000
WVec(ft, m) == IF ft = "scalar" THEN <<m>> ELSE <<m, 2>>
Requested(info) == SumSeq([k \in DOMAIN info |-> info[k].n])
CountIn(info, i) == SumSeq([k \in DOMAIN info |-> IF info[k].i = i THEN info[k].n ELSE 0])

(* the vector stored for the outcome o of argument number k                *)
Stored(c, k, o) ==
  LET v == WVec(c.ft, 100 + k)
      n == Len(v)
  IN CASE o = "ok" -> v
       [] o = "exc" -> [j \in 1..n |-> WINF]
       [] o = "nanall" -> [j \in 1..n |-> WINF]
       [] o = "nan" -> [v EXCEPT ![1] = WINF]
       [] o = "inf" -> [v EXCEPT ![n] = WINF]
       [] o = "ninf" -> [v EXCEPT ![n] = -WINF]
Agg(ft, v) ==
  IF \E j \in DOMAIN v : v[j] = WINF \/ (v[j] = -WINF /\ ft = "least_squares") THEN WINF
  ELSE IF \E j \in DOMAIN v : v[j] = -WINF THEN -WINF
  ELSE CASE ft = "least_squares" -> SumSeq([j \in DOMAIN v |-> v[j] * v[j]])
         [] OTHER -> SumSeq(v)

(* outcomes that belong to point i, as sequences in the order of the batch *)
Before(c, i) == SelectSeq([k \in DOMAIN c.pre |-> IF c.pre[k] = i THEN k ELSE 0],
                          LAMBDA k : k # 0)
New(c, i) == SelectSeq([k \in DOMAIN c.out.args |-> IF c.out.args[k] = i THEN k ELSE 0],
                       LAMBDA k : k # 0)
WantAt(c, i) ==
  LET b == Before(c, i)  n == New(c, i) IN
  [k \in DOMAIN b |-> WVec(c.ft, b[k])] \o [k \in DOMAIN n |-> Stored(c, n[k], c.script[n[k]])]

Same(a, b) ==  \* the same outcomes, each as often
  /\ Len(a) = Len(b)
  /\ \A v \in Range(a) \cup Range(b) :
       Cardinality({k \in DOMAIN a : a[k] = v}) = Cardinality({k \in DOMAIN b : b[k] = v})
Failing(o) == o \in {"exc", "nan", "nanall", "inf", "ninf"}

FailedWrapped(c) ==
  LET o == c.out
      total == Requested(c.info)
      fails == \E k \in DOMAIN c.script : k <= total /\ Failing(c.script[k])
      p == IF fails THEN "C16" ELSE "C04"
  IN IF "err" \in DOMAIN o THEN {p \o ".crash"}
  ELSE IF c.info = <<>> \/ total = 0
  THEN FlF("C25.empty_request_no_call", o.calls = 0 \/ c.info # <<>>)
       \cup FlF("C04.count", o.nfun = Len(c.pre))
  ELSE FlF("C25.workers", \A k \in DOMAIN o.cores :
              o.cores[k] >= 1 /\ o.cores[k] <= c.cores /\ o.cores[k] <= o.sizes[k])
  \cup FlF("C25.one_batch", o.calls = 1)
  \cup FlF("C04.requested_counts",
           /\ Len(o.args) = total
           /\ \A i \in 0..(c.npts - 1) :
                Cardinality({k \in DOMAIN o.args : o.args[k] = i}) = CountIn(c.info, i))
  \cup FlF("C04.count", o.nfun = Len(c.pre) + total)
  \cup (IF Len(o.args) # total THEN {} ELSE
        FlF("C04.stored_under_their_point",
            \A i \in 0..(c.npts - 1) :
               Len(o.vec[i + 1]) = Len(Before(c, i)) + Len(New(c, i)))
        \cup FlF(IF fails THEN "C16.recorded_outcomes" ELSE "C04.stored_outcomes",
            \A i \in 0..(c.npts - 1) : Same(o.vec[i + 1], WantAt(c, i)))
        \cup FlF(IF fails THEN "C16.aggregated_outcomes" ELSE "C04.aggregated_outcomes",
            \A i \in 0..(c.npts - 1) :
              Same(o.fv[i + 1], [k \in DOMAIN o.vec[i + 1] |-> Agg(c.ft, o.vec[i + 1][k])])))
  \cup FlF("C04.points_unchanged", o.xs = 1)
  \cup FlF("C04.request_unchanged", o.pure = 1)
==============================================================================
