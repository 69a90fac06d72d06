------------------------------- MODULE Figures -------------------------------
(***************************************************************************)
(* The diagnostic figure of results.  A figure has one column per case; a  *)
(* case is an iteration of a result.  For every column                     *)
(*   want  is the recorded run: points x[i], values f[i] (ranks), the      *)
(*         index sets of the shown iteration, radii and ratios of all      *)
(*         iterations (ranks), unit coordinates u of the model points      *)
(*         (M3), sample qualities (M4), numbers of clusters;               *)
(*   got   is the content of the figure.                                   *)
(***************************************************************************)
EXTENDS Numerics, TLC

FM4 == 10000
Traces(ts, name) == {k \in DOMAIN ts : ts[k].name = name}
One(ts, name) == CHOOSE k \in Traces(ts, name) : TRUE
HasOne(ts, name) == Cardinality(Traces(ts, name)) = 1

(* a marker trace shows exactly the evaluations with the given indices *)
ShowsEvaluations(w, t, idx) ==
  /\ Len(t.x) = Len(t.y) /\ Range(t.x) = Range(idx) /\ Len(t.x) = Len(idx)
  /\ \A k \in DOMAIN t.x : t.y[k] = w.f[t.x[k] + 1]

ShowsPoints(w, g, name, idx) ==
  LET k == Traces(g.points, name)
      pts(i) == g.points[i].x
  IN IF idx = <<>> THEN \A i \in k : pts(i) = <<>>
     ELSE /\ Cardinality(k) = 1
          /\ \A i \in k : /\ Len(pts(i)) = Len(idx)
                          /\ Range(pts(i)) = {w.x[j + 1] : j \in Range(idx)}

Upto(n) == [k \in 1..n |-> k - 1]

(* a line over all iterations with the shown iteration marked *)
ShowsSeries(w, g, name, vals, Same(_, _)) ==
  /\ HasOne(g.lines, name)
  /\ LET l == g.lines[One(g.lines, name)]
         ms == {k \in DOMAIN g.marks : g.marks[k].row = l.row}
     IN /\ l.x = Upto(Len(vals)) /\ Len(l.y) = Len(vals)
        /\ \A k \in DOMAIN vals : Same(l.y[k], vals[k])
        /\ Cardinality(ms) = 1
        /\ \A k \in ms : g.marks[k].x = <<w.it>> /\ Len(g.marks[k].y) = 1
                         /\ Same(g.marks[k].y[1], vals[w.it + 1])

Same2(a, b) == a = b
NearQ(a, b) == b = INFB \/ Abs(a - b) <= 10
Clipped(v, lo, hi, nan) == IF v = nan THEN v ELSE IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

(* distances of the model points from the centre *)
ShowsDistances(w, g, row, D(_)) ==
  LET ts == {k \in DOMAIN g.dist : g.dist[k].row = row} IN
  /\ Cardinality(ts) = 1
  /\ \A k \in ts :
       LET v == g.dist[k].v IN
       /\ Len(v) = Len(w.u)
       /\ g.dist[k].seen = 1
       /\ \A p \in DOMAIN w.u : \E q \in DOMAIN v : p \in D(v[q])
       /\ \A q \in DOMAIN v : D(v[q]) # {}

SumSq(u) == SumSeq([k \in DOMAIN u |-> Sq(u[k])])
MaxAbs(u) == SetMax({Abs(u[k]) : k \in DOMAIN u})
TwoNorm(w, v) == {p \in DOMAIN w.u : Abs(Sq(v) - SumSq(w.u[p])) <= 4 * (Abs(v) + 10)}
MaxNorm(w, v) == {p \in DOMAIN w.u : Abs(v - MaxAbs(w.u[p])) <= 2}

FactorName == <<"s=1*n", "s=2*n", "s=10*n">>
ShowsClusters(w, g, q) ==
  LET name == FactorName[q]
      vals == w.clusters[q]
      ls == Traces(g.lines, name)  ms == Traces(g.marks, name)
      same(a, k) == IF k = 1 THEN a = INFB
                    ELSE vals[k - 1] = -1 \/ Abs(a - 1000 * vals[k - 1]) <= 1
  IN /\ Cardinality(ls) = 1 /\ Cardinality(ms) = 1
     /\ \A i \in ls : /\ g.lines[i].x = Upto(Len(vals) + 1)
                      /\ Len(g.lines[i].y) = Len(vals) + 1
                      /\ \A k \in 1..(Len(vals) + 1) : same(g.lines[i].y[k], k)
     /\ \A i \in ms : g.marks[i].x = <<w.it>> /\ same(g.marks[i].y[1], w.it + 1)

ShowsCorrelations(w, g) ==
  LET n == w.d IN
  /\ Len(g.heat) = n
  /\ \A i \in 1..n :
       /\ Len(g.heat[i]) = n
       /\ \A j \in 1..n :
            \* every pair of parameters is shown once
            \/ g.heat[i][j] = -INFB /\ j >= i
            \/ w.corr[i][j] = INFB
            \/ Abs(g.heat[i][j] - w.corr[i][j]) <= 5

FailedColumn(c, col) ==
  LET w == col.want  g == col.got IN
  FlF("C35.criterion_values",
      HasOne(g.lines, "Criterion") /\
      LET l == g.lines[One(g.lines, "Criterion")]
      IN l.x = Upto(Len(w.f)) /\ l.y = w.f)
  \cup FlF("C35.existing_points",
      HasOne(g.marks, "existing") /\ ShowsEvaluations(w, g.marks[One(g.marks, "existing")], w.used))
  \cup FlF("C35.new_points",
      HasOne(g.marks, "new") /\ ShowsEvaluations(w, g.marks[One(g.marks, "new")], w.new))
  \cup FlF("C35.discarded_points",
      HasOne(g.marks, "discarded")
      /\ ShowsEvaluations(w, g.marks[One(g.marks, "discarded")], w.disc))
  \cup FlF("C35.current_point",
      HasOne(g.marks, "current index")
      /\ ShowsEvaluations(w, g.marks[One(g.marks, "current index")], <<w.i>>))
  \cup (IF w.d <= 2
        THEN FlF("C35.sample_points",
                 /\ ShowsPoints(w, g, "new", w.new)
                 /\ ShowsPoints(w, g, "existing", w.used)
                 /\ ShowsPoints(w, g, "discarded", w.disc)
                 /\ \A k \in DOMAIN g.points :
                      g.points[k].name \in {"new", "existing", "discarded"})
             \cup FlF("C35.trust_region", g.circle = <<w.c>>)
        ELSE FlF("C35.correlations", ShowsCorrelations(w, g)))
  \cup FlF("C35.radii", ShowsSeries(w, g, "Radius", w.radii, Same2))
  \cup FlF("C35.ratios",
      ShowsSeries(w, g, "Rho", [k \in DOMAIN w.rhos |->
                                  Clipped(w.rhos[k], c.one, c.three, c.nan)], Same2))
  \cup FlF("C35.sample_quality", ShowsSeries(w, g, "Fekete", w.qual, NearQ))
  \cup FlF("C35.clusters", \A q \in 1..3 : ShowsClusters(w, g, q))
  \cup FlF("C35.distances",
      /\ ShowsDistances(w, g, 1, LAMBDA v : TwoNorm(w, v))
      /\ ShowsDistances(w, g, 2, LAMBDA v : MaxNorm(w, v)))

FailedFigure(c) ==
  FlF("C35.one_column_per_case", c.out.titles = 1)
  \cup FlF("C35.results_unchanged", c.out.pure = 1)
  \cup UNION {FailedColumn(c, c.out.cols[k]) : k \in DOMAIN c.out.cols}
==============================================================================
