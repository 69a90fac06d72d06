------------------------------- MODULE Filters -------------------------------
(***************************************************************************)
(* Selection of model points, clustering, radius and noise adaptation as   *)
(* relations between inputs and outputs of one call (exact integers).      *)
(***************************************************************************)
EXTENDS Rules, TLC

FlF(name, ok) == IF ok THEN {} ELSE {name}
Sq(a) == a * a
Dist2(p, q) == SumSeq([k \in DOMAIN p |-> Sq(p[k] - q[k])])

(***************************************************************************)
(* Dropping one point from the set S of positions: all allowed results.    *)
(***************************************************************************)
DropOnce(pts, idx, cur, cx, r2, S) ==
  LET far == {k \in S : Dist2(pts[k], cx) > r2}
  IN IF far # {}
     THEN LET m == SetMax({Dist2(pts[k], cx) : k \in far})
          IN {S \ {k} : k \in {k \in far : Dist2(pts[k], cx) = m}}
     ELSE LET pairs == {pr \in S \X S : pr[1] < pr[2]}
              m == SetMin({Dist2(pts[pr[1]], pts[pr[2]]) : pr \in pairs})
              best == {pr \in pairs : Dist2(pts[pr[1]], pts[pr[2]]) = m}
              vict(i, j) ==
                IF idx[i] = cur THEN {j}
                ELSE IF idx[j] = cur THEN {i}
                ELSE LET a == Dist2(pts[i], cx)  b == Dist2(pts[j], cx)
                     IN IF a < b THEN {i} ELSE IF b < a THEN {j} ELSE {i, j}
          IN {S \ {v} : v \in UNION {vict(pr[1], pr[2]) : pr \in best}}

RECURSIVE DropMany(_, _, _, _, _, _, _)
DropMany(pts, idx, cur, cx, r2, n, SS) ==
  IF n = 0 THEN SS
  ELSE DropMany(pts, idx, cur, cx, r2, n - 1,
                UNION {DropOnce(pts, idx, cur, cx, r2, S) : S \in SS})

Positions(idx, kept) == {k \in DOMAIN idx : idx[k] \in Range(kept)}

Ordered(idx, kept) ==
  LET pos(v) == CHOOSE k \in DOMAIN idx : idx[k] = v
  IN \A a \in DOMAIN kept : \A b \in DOMAIN kept :
        a < b => (kept[a] \in Range(idx) /\ kept[b] \in Range(idx)
                  /\ pos(kept[a]) < pos(kept[b]))

DropResult(c, n) ==
  LET o == c.out IN
  FlF("C11.number_dropped", Len(o.kept) = Len(c.idx) - n)
  \cup FlF("C11.subset_in_order", Range(o.kept) \subseteq Range(c.idx) /\ Ordered(c.idx, o.kept))
  \cup FlF("C11.points_and_indices_aligned", o.aligned = 1)
  \cup FlF("C11.current_point_kept",
           c.cur \notin Range(c.idx) \/ n >= Len(c.idx) \/ c.cur \in Range(o.kept))
  \cup FlF("C11.worst_first",
           n >= Len(c.idx) \/
           Positions(c.idx, o.kept) \in
             DropMany(c.pts, c.idx, c.cur, c.cx, c.r2, n, {DOMAIN c.idx}))
  \cup FlF("C11.inputs_unchanged", o.pure = 1)

FailedDrop(c) == DropResult(c, c.n)

FailedFilterCase(c) ==
  LET o == c.out IN
  CASE c.filter = "keep_all" ->
         FlF("C11.keep_all", o.kept = c.idx /\ o.aligned = 1)
    [] c.filter = "discard_all" ->
         FlF("C11.discard_all", o.kept = <<c.cur>> /\ o.aligned = 1)
    [] c.filter = "drop_excess" ->
         DropResult(c, Len(c.idx) - DropExcessSize(Len(c.idx), c.target, c.factor, 1))
    [] OTHER -> {"C11.unknown_filter"}

(***************************************************************************)
(* Clustering: labels[k] in 0..K-1, centers[l+1] position of the centre.   *)
(***************************************************************************)
FailedCluster(c) ==
  LET o == c.out
      n == Len(c.pts)
      K == Len(o.centers)
      close(i, j) == Dist2(c.pts[i], c.pts[j]) <= c.eps2
  IN
  FlF("C22.one_label_each", Len(o.labels) = n)
  \cup FlF("C22.consecutive_labels", Range(o.labels) = 0..(K - 1))
  \cup FlF("C22.centres_are_points",
           \A l \in 1..K : o.centers[l] \in 0..(n - 1))
  \cup FlF("C22.centres_distinct", Cardinality(Range(o.centers)) = K)
  \cup (IF Len(o.labels) = n /\ Range(o.labels) = 0..(K - 1)
           /\ \A l \in 1..K : o.centers[l] \in 0..(n - 1)
        THEN FlF("C22.centre_in_own_cluster",
                 \A l \in 1..K : o.labels[o.centers[l] + 1] = l - 1)
             \cup FlF("C22.members_close_to_centre",
                 \A k \in 1..n : close(k, o.centers[o.labels[k] + 1] + 1))
             \cup FlF("C22.isolated_points_alone",
                 \A k \in 1..n :
                   (\A j \in 1..n : j = k \/ ~close(j, k)) =>
                      \A j \in 1..n : j = k \/ o.labels[j] # o.labels[k])
        ELSE {})
  \cup FlF("C22.inputs_unchanged", o.pure = 1)

(* the clustering filter returns one point per cluster *)
FailedClusterFilter(c) ==
  LET o == c.out
      n == Len(c.pts)
      kept == Positions(c.idx, o.kept)
      same(i, j) == c.pts[i] = c.pts[j]
  IN
  FlF("C22.filter_subset", Range(o.kept) \subseteq Range(c.idx)
                           /\ Cardinality(Range(o.kept)) = Len(o.kept))
  \cup FlF("C22.filter_aligned", o.aligned = 1)
  \cup FlF("C22.filter_one_point_per_cluster",
           /\ \A i \in 1..n : \E k \in kept : same(i, k)
           /\ \A i \in kept : \A k \in kept : i = k \/ ~same(i, k))

(***************************************************************************)
(* Radius: integers, c.large/2 is the threshold for large steps,           *)
(* c.ratio = 0 stands for no cap.                                          *)
(***************************************************************************)
FailedRadius(c) ==
  LET large == 2 * c.step >= c.large * c.r
      cap == IF c.ratio = 0 THEN c.rmax ELSE Min2(c.rmax, c.step * c.ratio)
      exp == RadiusRule(c.r, c.r \div c.shrink, c.r * c.expand, c.rho >= c.inc,
                        c.rho >= c.dec, large, c.more, c.rmin, cap)
  IN FlF("C07.radius_rule", c.out.r = exp)
     \cup FlF("C07.radius_limits", c.out.r >= c.rmin /\ c.out.r <= Max2(c.rmin, c.rmax))

(***************************************************************************)
(* Evaluations per point: c.hi and c.lo draws exceed the thresholds        *)
(***************************************************************************)
FailedNEvals(c) ==
  LET exp == NEvalsRule(c.nev, c.draws, c.hi, c.lo, c.rho >= c.good,
                        c.hiNum, c.hiDen, c.loNum, c.loDen, c.nmin, c.nmax)
  IN FlF("C15.rule", c.out.nev = exp)
     \cup FlF("C15.limits", c.out.nev >= c.nmin /\ c.out.nev <= c.nmax)
     \cup FlF("C15.one_step", Abs(c.out.nev - c.nev) <= 1)
     \cup FlF("C15.increase_signal", (c.out.inc = 1) = (c.out.nev > c.nev))

(***************************************************************************)
(* Infinities: entries are ranks (1, 2, ...) of the finite numbers, 0 is   *)
(* minus infinity and BIG plus infinity; out has the ranks of the results. *)
(* lo and up are the ranks of min - range and max + range of every column, *)
(* low and high those of a margin of a hundred ranges.                     *)
(***************************************************************************)
BIG == 2000000000
FailedInf(c) ==
  LET y == c.y  o == c.out.y
      rows == DOMAIN y  cols == DOMAIN y[1]
      fin(i, j) == y[i][j] # 0 /\ y[i][j] # BIG
      finOf(j) == {i \in rows : fin(i, j)}
  IN
  FlF("C17.shape", DOMAIN o = rows /\ \A i \in rows : DOMAIN o[i] = cols)
  \cup (IF DOMAIN o = rows /\ \A i \in rows : DOMAIN o[i] = cols
        THEN FlF("C17.finite", \A i \in rows : \A j \in cols : o[i][j] # 0 /\ o[i][j] # BIG)
        \cup FlF("C17.finite_entries_unchanged",
                 \A i \in rows : \A j \in cols : fin(i, j) => o[i][j] = y[i][j])
        \cup FlF("C17.plus_infinity_is_worst",
                 \A j \in cols : \A i \in rows : y[i][j] = BIG =>
                    /\ \A k \in finOf(j) : o[i][j] > y[k][j]
                    /\ (finOf(j) = {} \/ o[i][j] >= c.up[j]))
        \cup FlF("C17.minus_infinity_is_best",
                 \A j \in cols : \A i \in rows : y[i][j] = 0 =>
                    /\ \A k \in finOf(j) : o[i][j] < y[k][j]
                    /\ (finOf(j) = {} \/ o[i][j] <= c.lo[j]))
        \cup FlF("C17.in_proportion_to_range",
                 \A j \in cols : \A i \in rows : finOf(j) = {} \/ fin(i, j) \/
                    (o[i][j] >= c.low[j] /\ o[i][j] <= c.high[j]))
        \cup FlF("C17.order",
                 \A j \in cols : \A i \in rows : \A k \in rows :
                    (y[i][j] = 0 /\ y[k][j] = BIG) => o[i][j] < o[k][j])
        \cup FlF("C17.columns_independent", c.out.indep = 1)
        ELSE {})
  \cup FlF("C17.inputs_unchanged", c.out.pure = 1)
==============================================================================
