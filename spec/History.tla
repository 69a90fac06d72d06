------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* The store of points and evaluations as a state machine.                 *)
(*   st.n   number of points; point k (from 0) is X(k)                     *)
(*   st.ev  sequence of [x, m]: the m-th evaluation belongs to point x     *)
(* Operations: [op |-> "xs", n, form]   add n points                       *)
(*             [op |-> "ev", idx, form] add one evaluation per index       *)
(*             [op |-> "grow", n]       add n points, evaluate each once   *)
(* Coordinates are in quarters; the m-th evaluation has the residuals m, 2 *)
(***************************************************************************)
EXTENDS Filters, SequencesExt

XOf(k) == <<2 * k, (k * k) % 7>>
FVal(ft, m) == CASE ft = "least_squares" -> m * m + 4
                 [] ft = "likelihood" -> m + 2
                 [] ft = "scalar" -> m
Vec(ft, m) == IF ft = "scalar" THEN <<m>> ELSE <<m, 2>>

Empty == [n |-> 0, ev |-> <<>>]
Rejected(st, o) == o.op = "ev" /\ \E i \in Range(o.idx) : i < 0 \/ i >= st.n
Apply(st, o) ==
  CASE o.op = "xs" -> [st EXCEPT !.n = @ + o.n]
    [] o.op = "ev" -> IF Rejected(st, o) THEN st
                      ELSE [st EXCEPT !.ev = @ \o [k \in DOMAIN o.idx |->
                               [x |-> o.idx[k], m |-> Len(st.ev) + k]]]
    [] o.op = "grow" -> [n |-> st.n + o.n,
                         ev |-> st.ev \o [k \in 1..o.n |->
                               [x |-> st.n + k - 1, m |-> Len(st.ev) + k]]]
Returned(st, o) == IF o.op = "xs" THEN [k \in 1..o.n |-> st.n + k - 1] ELSE <<>>

RECURSIVE After(_, _)
After(ops, k) == IF k = 0 THEN Empty ELSE Apply(After(ops, k - 1), ops[k])

EvalsOf(st, i) == LET q == SelectSeq(st.ev, LAMBDA e : e.x = i) IN [k \in DOMAIN q |-> q[k].m]

(* indices meant by a query, as numpy defines them                         *)
Meant(st, q) ==
  LET pos(i) == IF i < 0 THEN i + st.n ELSE i IN
  CASE q.form = "slice" ->
         LET a == Min2(q.a, st.n)  b == Min2(q.b, st.n) IN
         [k \in 1..(IF b > a THEN (b - a + q.step - 1) \div q.step ELSE 0) |-> a + (k - 1) * q.step]
    [] q.form \in {"mask", "listmask"} ->
         SelectSeq([k \in 1..st.n |-> k - 1], LAMBDA i : q.mask[i + 1] = 1)
    [] q.form = "all" -> [k \in 1..st.n |-> k - 1]
    [] OTHER -> [k \in DOMAIN q.idx |-> pos(q.idx[k])]
Unique(s) == SelectSeq([k \in DOMAIN s |-> IF \E j \in 1..(k - 1) : s[j] = s[k] THEN -1 ELSE s[k]],
                       LAMBDA i : i # -1)

(* what is seen of a state: s.n, s.nf, s.xs[k], s.ev[k] = [i, m, fv, n]      *)
FailedDump(st, s, ft, watch) ==
  FlF("C27.counts_exact", s.n = st.n /\ s.nf = Len(st.ev))
  \cup FlF("C27.points_in_insertion_order",
           \A k \in DOMAIN s.xs : s.xs[k].i < st.n /\ s.xs[k].x = XOf(s.xs[k].i))
  \cup FlF("C27.evaluations_under_their_point",
           \A k \in DOMAIN s.ev :
              LET e == s.ev[k]  ms == EvalsOf(st, e.i) IN
              /\ e.vec = [j \in DOMAIN ms |-> Vec(ft, ms[j])]
              /\ e.n = Len(ms))
  \cup FlF("C27.documented_aggregate",
           \A k \in DOMAIN s.ev :
              LET e == s.ev[k]  ms == EvalsOf(st, e.i) IN
              e.fv = [j \in DOMAIN ms |-> FVal(ft, ms[j])])

FailedQuery(st, q, a, ft) ==
  LET want == Meant(st, q)
      keys == Unique(want)
  IN FlF("C27.retrieval_points", a.xs = [k \in DOMAIN want |-> XOf(want[k])])
     \cup FlF("C27.retrieval_evaluations",
          /\ a.keys = keys
          /\ a.vec = [k \in DOMAIN keys |-> LET ms == EvalsOf(st, keys[k]) IN
                         [j \in DOMAIN ms |-> Vec(ft, ms[j])]]
          /\ a.fv = [k \in DOMAIN keys |-> LET ms == EvalsOf(st, keys[k]) IN
                         [j \in DOMAIN ms |-> FVal(ft, ms[j])]])

(* averages and single evaluations of a selection of points                 *)
FailedModelData(st, sel, a, ft) ==
  LET ms == [k \in DOMAIN sel |-> EvalsOf(st, sel[k])]
      flatx == FlattenSeq([k \in DOMAIN sel |-> [j \in DOMAIN ms[k] |-> XOf(sel[k])]])
      flaty == FlattenSeq([k \in DOMAIN sel |-> [j \in DOMAIN ms[k] |-> Vec(ft, ms[k][j])]])
  IN IF \E k \in DOMAIN sel : ms[k] = <<>> THEN {}
     ELSE FlF("C27.model_data",
            /\ a.avgx = [k \in DOMAIN sel |-> XOf(sel[k])]
            /\ Len(a.avgy) = Len(sel)
            /\ \A k \in DOMAIN sel :
                 LET n == Len(ms[k]) IN
                 /\ Abs(n * a.avgy[k][1] - 1000 * SumSeq(ms[k])) <= n
                 /\ (ft # "scalar" => a.avgy[k][2] = 2000)
            /\ a.rawx = flatx
            /\ a.rawy = flaty)

FailedHistory(c) ==
  LET N == Len(c.ops)
      st == [k \in 0..N |-> After(c.ops, k)]
  IN FlF("C27.one_result_per_operation", Len(c.out.steps) = N)
     \cup UNION {
       LET s == c.out.steps[k] o == c.ops[k] IN
       FlF("C27.rejects_unknown_points", (s.rej = 1) = Rejected(st[k - 1], o))
       \cup FlF("C27.returned_indices",
                o.op # "xs" \/ (s.ret = Returned(st[k - 1], o)
                                /\ (s.scalar = 1) = (o.form = "single")))
       \cup FailedDump(st[k], s, c.ft, {})
       : k \in 1..Min2(N, Len(c.out.steps))}
     \cup UNION {FailedQuery(st[N], c.q[k], c.out.q[k], c.ft) : k \in DOMAIN c.out.q}
     \cup FlF("C27.region_query",
              \A k \in DOMAIN c.reg :
                 \/ st[N].ev = <<>>
                 \/ c.out.reg[k] = SelectSeq([i \in 1..st[N].n |-> i - 1],
                           LAMBDA i : Dist2(XOf(i), c.reg[k].c) <= Sq(c.reg[k].r)))
     \cup FlF("C27.earlier_entries_unchanged", c.out.kept = 1)
     \cup UNION {FailedModelData(st[N], c.md[k], c.out.md[k], c.ft) : k \in DOMAIN c.md}
==============================================================================
