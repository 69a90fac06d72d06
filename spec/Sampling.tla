------------------------------- MODULE Sampling -------------------------------
(***************************************************************************)
(* Samples of trust regions and of the whole box, their poisedness, sizes  *)
(* of replicate samples, and simulated ratios of improvements.             *)
(***************************************************************************)
EXTENDS Numerics, TLC

(***************************************************************************)
(* Trust region samplers.  out.u unit coordinates (M4), out.dev deviation  *)
(* of the norm (maximum norm in a box) of each point from one, in 1e-9.    *)
(***************************************************************************)
PhiDim(c) == Len(c.c)
Binding(c) == \E k \in 1..Len(c.c) : \/ (c.lo[k] # -INFB /\ c.c[k] - c.lo[k] <= c.r)
                                     \/ (c.up[k] # INFB /\ c.up[k] - c.c[k] <= c.r)
Norm2(u) == SumSeq([k \in DOMAIN u |-> Sq(u[k])])
NormMax(u) == SetMax({Abs(u[k]) : k \in DOMAIN u})

FailedSample(c) ==
  LET o == c.out
      d == Len(c.c)
      box == Binding(c)
      K == DOMAIN o.u
      hull == c.sampler \in {"random_hull", "optimal_hull"}
      distinct == d > 1 /\ c.sampler = "random_hull"
      orthants == [1..d -> {-1, 1}]
      in(u, q) == \A k \in 1..d : u[k] * q[k] >= 0
      \* share of the volume: norm^d below one half
      half(u) == LET n == IF box THEN NormMax(u) ELSE 0
                 IN CASE box /\ d = 1 -> 2 * n <= M4
                      [] box /\ d = 2 -> 2 * Sq(n) <= Sq(M4)
                      [] box -> 2 * (Sq(n) \div 1000) * n <= 1000000000
                      [] d = 1 -> 2 * Abs(u[1]) <= M4
                      [] d = 2 -> 2 * Norm2(u) <= Sq(M4)
                      [] OTHER -> Norm2(u) <= 62996052
      frac == Cardinality({k \in K : half(o.u[k])})
  IN
  IF "err" \in DOMAIN o THEN {"C10.crash"} ELSE
  FlF("C10.number_of_points", o.n = c.n /\ Len(o.u) = c.n /\ Len(o.dev) = c.n)
  \cup FlF("C10.finite", o.finite = 1)
  \cup FlF("C10.within_bounds", o.inb = 1)
  \cup FlF("C10.within_trustregion", \A k \in K : o.dev[k] <= 10)
  \cup FlF("C10.on_hull", ~hull \/ \A k \in K : Abs(o.dev[k]) <= 10)
  \cup FlF("C10.hull_points_coincide", ~distinct \/ o.distinct = 1)
  \cup FlF("C10.depends_on_generator_only", o.same = 1)
  \cup FlF("C10.arguments_unchanged", o.pure = 1)
  \cup FlF("C10.global_generator", o.glob = 1)
  \cup FlF("C10.worse_than_start", c.sampler # "optimal_hull" \/ c.n = 0 \/ o.worse = 0)
  \cup (IF c.n < 300 \/ c.sampler = "optimal_hull" THEN {} ELSE
        FlF("C10.covers_region",
            /\ \A q \in orthants : \E k \in K : in(o.u[k], q)
            /\ (hull \/ (20 * frac > 6 * c.n /\ 20 * frac < 14 * c.n))))

(***************************************************************************)
(* Exploration samples.  out.x[k] position between the bounds (M4)         *)
(***************************************************************************)
(* distribution function at position p (M4) of the triangular distribution *)
(* with its mode at the position num/den                                   *)
Cdf(dist, p, num, den) ==      \* M4
  IF dist = "uniform" THEN p
  ELSE IF den * p <= num * M4 THEN (((p * p) \div M4) * den) \div Max2(num, 1)
  ELSE M4 - ((((M4 - p) * (M4 - p)) \div M4) * den) \div Max2(den - num, 1)

Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)

FailedExplore(c) ==
  LET o == c.out
      d == Len(c.x)
      n == c.n
      col(j) == Sorted([k \in 1..n |-> Cdf(c.dist, o.x[k][j], c.x[j], c.w[j])])
      tol == 12
      strata(j) ==
        LET s == col(j) IN
        CASE c.method = "sobol" /\ c.full = 1 ->
               \A k \in 1..n : Near(s[k] * (n + 1), k * M4, tol * (n + 1))
          [] c.method = "halton" /\ c.full = j ->
               \A k \in 1..n : Near(s[k] * n, (k - 1) * M4, tol * n)
          [] c.method = "latin_hypercube" ->
               \A k \in 1..n : /\ s[k] * n >= (k - 1) * M4 - tol * n
                               /\ s[k] * n <= k * M4 + tol * n
          [] n >= 100 -> \A k \in 1..n : Abs(s[k] * n - k * M4) <= n * 3000
          [] OTHER -> TRUE
  IN
  IF c.bad # "none" THEN FlF("C29.rejects_" \o c.bad, "err" \in DOMAIN o)
  ELSE IF "err" \in DOMAIN o THEN {"C29.crash"} ELSE
  FlF("C29.size", o.n = n /\ Len(o.x) = n /\ \A k \in DOMAIN o.x : Len(o.x[k]) = d)
  \cup FlF("C29.within_bounds", o.inb = 1)
  \cup FlF("C29.same_seed_same_sample", o.same = 1)
  \cup FlF("C29.other_seed_other_sample",
           c.method \in {"sobol", "halton"} \/ n = 0 \/ o.other = 1)
  \cup FlF("C29.nested_sequence", c.method \notin {"sobol", "halton"} \/ o.prefix = 1)
  \cup FlF("C29.arguments_unchanged", o.pure = 1)
  \cup (IF o.n # n THEN {} ELSE
        FlF("C29.follows_distribution", \A j \in 1..d : strata(j))
        \cup FlF("C29.coordinates_differ",
                 d = 1 \/ n < 4 \/ \A i, j \in 1..d : i = j \/
                   \E k \in 1..n : ~Near(Cdf(c.dist, o.x[k][i], c.x[i], c.w[i]),
                                         Cdf(c.dist, o.x[k][j], c.x[j], c.w[j]), 100)))

(***************************************************************************)
(* Poisedness.  Sample points are lattice points c.y / c.L.  out.p[i] are  *)
(* coefficients of a certificate for the i-th Lagrange polynomial (M3), in *)
(* the order intercept, linear terms, halved squares and cross terms.      *)
(***************************************************************************)
(* value (M3) at a point (M3) *)
PolyAt(p, v) ==
  LET d == Len(v)
      quad == Flat([i \in 1..d |-> [j \in 1..(d - i + 1) |->
                IF j = 1 THEN (v[i] * v[i]) \div 2000 ELSE (v[i] * v[i + j - 1]) \div 1000]])
  IN p[1] + SumSeq([k \in 1..d |-> (p[1 + k] * v[k]) \div 1000])
          + SumSeq([k \in DOMAIN quad |-> (p[1 + d + k] * quad[k]) \div 1000])

(* exact value at the sample points: 2 * L * L * M3 * value *)
PolyOn(p, y, L) ==
  LET d == Len(y)
      quad == Flat([i \in 1..d |-> [j \in 1..(d - i + 1) |->
                IF j = 1 THEN y[i] * y[i] ELSE 2 * y[i] * y[i + j - 1]]])
  IN 2 * L * L * p[1] + SumSeq([k \in 1..d |-> 2 * L * p[1 + k] * y[k]])
     + SumSeq([k \in DOMAIN quad |-> p[1 + d + k] * quad[k]])

InUnit(shape, v, slack) == IF shape = "cube" THEN \A k \in DOMAIN v : Abs(v[k]) <= M3 + slack
                           ELSE Norm2(v) <= M6 + 2000 * slack

FailedPoised(c) ==
  LET o == c.out
      n == Len(c.y)
      d == Len(c.y[1])
      L == c.L
      cert == \A i, j \in 1..n :
                 Near(PolyOn(o.p[i], c.y[j], L), IF i = j THEN 2 * L * L * M3 ELSE 0, 40 * L * L)
      slack == 20 + o.lam \div 100      \* rounding, accuracy of the search
      rough(i) == Abs(PolyAt(o.p[i], o.w))
      points == {[k \in 1..d |-> (M3 * f[k]) \div L] : f \in
                   {f \in [1..d -> -L..L] : IF c.shape = "cube" THEN TRUE
                                            ELSE SumSeq([k \in 1..d |-> f[k] * f[k]]) <= L * L}}
      better == \/ rough(o.wi) > o.lam + slack
                \/ \E i \in 1..n : \E v \in points : Abs(PolyAt(o.p[i], v)) > o.lam + slack
  IN
  IF c.shape \notin {"cube", "sphere"} THEN FlF("C30.rejects_shape", "err" \in DOMAIN o)
  ELSE IF "err" \in DOMAIN o THEN {"C30.crash"} ELSE
  FlF("ALL.certificate", cert)
  \cup FlF("C30.argmax_in_region", InUnit(c.shape, o.am, 2))
  \cup FlF("C30.attained", /\ o.idx \in 1..n
                           /\ Near(Abs(PolyAt(o.p[o.idx], o.am)), o.lam, slack))
  \cup (IF ~better THEN {}
        \* the search from the centre of the region only finds a local maximum
        ELSE IF o.lam + slack >= o.loc THEN {"C30.local_maximum"}
        ELSE {"C30.largest_value"})
  \cup FlF("C30.sample_unchanged", o.pure = 1)
  \cup FlF("C30.improve_replaces_one_point", o.replaced = 1)
  \cup FlF("C30.improve_history", o.hist = 1)

(***************************************************************************)
(* Replicates.  Standard deviation c.s, expected improvement c.e, c.zz is  *)
(* the squared sum of the normal quantiles (M3).  SufM: sufficient         *)
(***************************************************************************)
Suffices(c, n1, n2, slack) ==
  LET N1 == c.ex + n1 IN
  IF n2 <= 0 \/ N1 <= 0 THEN c.s = 0
  ELSE c.s * c.s * (N1 + n2) * c.zz <= c.e * c.e * N1 * n2 * M3 + slack

FailedSizes(c) ==
  LET o == c.out
      n1 == o.n1  n2 == o.n2
      cap1 == Max2(0, c.nmax - c.ex)
      slack == 1 + (c.s * c.s * (c.ex + n1 + n2) * c.zz) \div 500
  IN
  FlF("C32.limits", n1 >= 0 /\ n1 <= cap1 /\ n2 >= c.nmin /\ n2 <= c.nmax)
  \cup FlF("C32.sufficient", \/ n2 = c.nmax \/ n1 = cap1 \/ c.s = 0
                             \/ (c.e > 0 /\ Suffices(c, n1, n2, slack)))
  \cup FlF("C32.not_more_than_needed",
           \/ c.e <= 0 \/ n2 <= c.nmin
           \/ ~Suffices(c, IF n1 > 0 THEN n1 - 1 ELSE 0, n2 - 1, -slack))
  \cup FlF("C32.balanced", n1 = 0 \/ n1 = cap1 \/ n2 \in {c.nmin, c.nmax}
                           \/ Abs(c.ex + n1 - n2) <= 1)
  \cup FlF("C32.grows_with_noise", o.s1 >= n1 /\ o.s2 >= n2)
  \cup FlF("C32.shrinks_with_improvement", o.e1 <= n1 /\ o.e2 <= n2)
  \cup FlF("C32.grows_with_power", o.p1 >= n1 /\ o.p2 >= n2)
  \cup FlF("C32.grows_with_confidence", o.q1 >= n1 /\ o.q2 >= n2)

(***************************************************************************)
(* Simulated ratios.  c.m models per residual, the fitter, the aggregator  *)
(* and the subsolver are scripted: fit k returns a model tagged k, whose   *)
(* solution is c.sol[k] (unit coordinates) with expected improvement       *)
(* c.ei[k].  c.agg true model: sum of the residuals or of their squares.   *)
(***************************************************************************)
Truth2(c, u) ==     \* twice the true value at integer unit coordinates
  IF c.agg = "squares"
  THEN 2 * SumSeq([r \in DOMAIN c.m |-> Sq(Twice(c.m[r], u) \div 2)])
  ELSE SumSeq([r \in DOMAIN c.m |-> Twice(c.m[r], u)])

FailedRho(c) ==
  LET o == c.out
      n == c.draws
      K == 1..n
      gain2(k) == Truth2(c, c.cu) - Truth2(c, c.sol[k])     \* twice the improvement
      rho(k) == IF c.ei[k] = 0 THEN (IF gain2(k) > 0 THEN INFB ELSE -INFB)
                ELSE (gain2(k) * M3) \div (2 * c.ei[k])
      zero == \A i, j \in DOMAIN c.cov : c.cov[i][j] = 0
      R == DOMAIN c.cov
      eff(i, j) == IF c.ignore = 1 /\ i # j THEN 0 ELSE c.cov[i][j]
  IN
  IF "err" \in DOMAIN o THEN {"C33.crash"} ELSE
  FlF("C33.one_ratio_per_draw", Len(o.rho) = n /\ o.fits = n)
  \cup (IF Len(o.rho) # n THEN {} ELSE
        FlF("C33.ratio", \A k \in K : Near(o.rho[k], rho(k), 3)))
  \cup FlF("C33.fit_arguments", o.args = 1)
  \cup FlF("C33.noise_around_true_model", ~zero \/ o.exact = 1)
  \cup FlF("C33.noiseless_residuals", \A i \in R : eff(i, i) = 0 => o.cov[i][i] = 0)
  \cup (IF n * c.points < 800 THEN {} ELSE
        FlF("C33.noise_covariance",
            \A i, j \in R : Abs(o.cov[i][j] - M3 * eff(i, j)) <=
               (3 * M3 * (c.cov[i][i] + c.cov[j][j])) \div 20))
  \cup FlF("C33.noise_mean",
           n * c.points < 800 \/ \A i \in R : Sq(o.mean[i]) <= 100 * M3 * c.cov[i][i])
  \cup FlF("C33.independent_draws", zero \/ o.fresh = 1)
  \cup FlF("C33.generator_only", o.same = 1)
  \cup FlF("C33.global_generator", o.glob = 1)
  \cup FlF("C33.arguments_unchanged", o.pure = 1)
==============================================================================
