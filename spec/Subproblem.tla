----------------------------- MODULE Subproblem -----------------------------
(***************************************************************************)
(* Minimisation of a quadratic model on the unit ball or the unit cube.    *)
(* Models have integer coefficients m = [a, g, H]; points of the unit      *)
(* domain are integer multiples of 1/L.                                    *)
(***************************************************************************)
EXTENDS Numerics

(* 2 L^2 times the model value at k / L                                    *)
ValL(m, k, L) == 2 * L * L * m.a + 2 * L * Dot(m.g, k) + Quad(m.H, k)
(* 2 * 10^6 times the value at a point given in thousandths                *)
Val3(m, u) == 2 * M6 * m.a + 2 * M3 * Dot(m.g, u) + Quad(m.H, u)

RECURSIVE Points(_, _)
Points(d, L) == IF d = 0 THEN {<<>>}
                ELSE {Append(p, k) : p \in Points(d - 1, L), k \in -L..L}
Domain(d, L, box) == IF box THEN Points(d, L)
                     ELSE {p \in Points(d, L) : SumSeq([k \in DOMAIN p |-> Sq(p[k])]) <= L * L}

Norm2(u) == SumSeq([k \in DOMAIN u |-> Sq(u[k])])
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

Inside(u, box) == /\ \A k \in DOMAIN u : Abs(u[k]) <= M3
                  /\ box \/ Norm2(u) <= M6 + 2 * M3

(***************************************************************************)
(* The step around a solver.  c.k0 start and c.s solver output in quarters *)
(* (s = <<>>: the solver fails), c.nan: it returns NaN, c.box the shape,   *)
(* c.retry whether the fallback is enabled                                 *)
(* out: u (M3), ei (M3), x, xu (x implied by u, M3), used ...              *)
(***************************************************************************)
FailedStep(c) ==
  LET box == c.box = 1
      o == c.out
      d == Len(c.k0)
      raises == c.s = <<>>
      big == ~box /\ ~raises /\ Norm2(c.s) > 16          \* outside the ball
      clipped == IF raises THEN c.k0 ELSE [k \in 1..d |-> IF box THEN Clip(c.s[k], -4, 4) ELSE c.s[k]]
      gain == ValL(c.m, c.k0, 4) - ValL(c.m, clipped, 4)   \* 32 times the improvement
      start3 == [k \in 1..d |-> 250 * c.k0[k]]
      gotgain == (Val3(c.m, start3) - Val3(c.m, o.u)) \div 2000      \* M3
      atStart == \A k \in 1..d : Near(o.u[k], start3[k], 1)
  IN
  IF raises /\ c.retry = 0
  THEN FlF("C12.error_is_raised", "err" \in DOMAIN o /\ o.same = 1)
  ELSE IF "err" \in DOMAIN o THEN {"C12.crash"}
  ELSE
  FlF("C12.finite", o.finite = 1)
  \cup (IF o.finite = 0 THEN {} ELSE
    FlF("C12.inside_region_and_bounds", Inside(o.u, box) /\ o.inb = 1)
    \cup FlF("C12.improvement_nonnegative", o.ei >= 0)
    \cup FlF("C12.improvement_is_model_difference", Near(o.ei, gotgain, 40))
    \cup FlF("C12.point_belongs_to_unit_point", o.x = o.xu)
    \cup (IF raises THEN FlF("C12.fallback_is_used", o.fallback = 1)
          ELSE IF c.nan = 1 THEN FlF("C12.never_worse_than_centre", atStart /\ o.ei = 0)
          ELSE IF big
          THEN FlF("C12.solution_of_solver",
                 \/ atStart
                 \/ /\ Near(Norm2(o.u) \div M3, M3, 6)
                    /\ \A i, j \in 1..d : Abs(o.u[i] * c.s[j] - o.u[j] * c.s[i]) <= Abs(c.s[i]) + Abs(c.s[j])
                    /\ \A i \in 1..d : Sgn(c.s[i]) = Sgn(o.u[i]))
          ELSE FlF("C12.solution_of_solver",
                 IF gain >= 0 THEN /\ \A k \in 1..d : Near(o.u[k], 250 * clipped[k], 1)
                                   /\ Near(32 * o.ei, M3 * gain, 40)
                 ELSE atStart /\ o.ei = 0)))
  \cup FlF("C12.solver_for_the_shape", o.used = IF box THEN "cube" ELSE "sphere")
  \cup FlF("C12.solver_starts_at_centre", o.start = 1)
  \cup FlF("C12.inputs_unchanged", o.pure = 1)

(* runs of the step with built-in solvers on arbitrary models               *)
FailedBuiltin(c) ==
  LET o == c.out IN
  FlF("C12.finite", o.finite = 1)
  \cup (IF o.finite = 0 THEN {} ELSE
    FlF("C12.inside_region_and_bounds", Inside(o.u, c.box = 1) /\ o.inb = 1)
    \cup FlF("C12.improvement_nonnegative", o.eineg = 0)
    \cup FlF("C12.improvement_is_model_difference", o.eiok = 1)
    \cup FlF("C12.point_belongs_to_unit_point", o.x = o.xu))
  \cup FlF("C12.inputs_unchanged", o.pure = 1)

(***************************************************************************)
(* Solvers: out.u solution in thousandths (of the solver itself, before    *)
(* the step clips it), out.gain (M3) improvement over the start point,     *)
(* c.L fineness of the lattice the solution has to beat, c.num / c.den the *)
(* share of the best improvement that has to be reached                    *)
(***************************************************************************)
FailedSolver(c) ==
  LET box == c.box = 1
      o == c.out
      d == Len(c.m.g)
      L == c.L
      best == IF c.opt = 0 THEN 0
              ELSE SetMax({ValL(c.m, [k \in 1..d |-> (L * c.k0[k]) \div 4], L) - ValL(c.m, p, L)
                             : p \in Domain(d, L, box)})     \* 2 L^2 times the gain
      tol == 3
  IN
  (* the linearisation at the solution bounds how much any other point of    *)
  (* the cube can gain if the model is convex                                *)
  FlF("C13.stationary", c.opt = 0 \/ ~box \/
      LET G(k) == (10000 * c.m.g[k] + Dot(c.m.H[k], o.u4)) \div 10
          Room(k) == IF G(k) > 0 THEN (o.u4[k] + 10000) \div 10 ELSE (o.u4[k] - 10000) \div 10
      IN SumSeq([k \in 1..d |-> Abs(G(k)) * Abs(Room(k))]) <= 30000 + 30 * Abs(o.gain))
  \cup FlF("C13.inside_domain",
      /\ \A k \in 1..d : Abs(o.u[k]) <= IF box THEN M3 ELSE M3 + c.slack
      /\ box \/ Norm2(o.u) <= Sq(M3 + c.slack) + 4 * M3)
  \cup FlF("C13.not_worse_than_start", o.gain >= -c.lossy)
  \* the damping iteration may solve with an outdated factorization; results of
  \* exactly that iteration are not optimal in the ball
  \cup FlF(IF o.stale = 1 THEN "C13.outdated_factorization" ELSE "C13.optimal", c.opt = 0 \/
           c.den * 2 * L * L * (o.gain + tol) >= c.num * M3 * (best \div 1))
  (* a point of the ball close to the optimum of a model of any curvature    *)
  \cup FlF(IF o.stale = 1 THEN "C13.outdated_factorization" ELSE "C13.optimal_in_the_ball", box \/ Norm2(c.w) > M6 \/
           2000 * (o.gain + tol) >= c.num * ((2 * M6 * c.m.a - Val3(c.m, c.w)) \div c.den))
  \cup FlF("C13.versions_agree", o.agree = 1)
  \cup FlF("C13.inputs_unchanged", o.pure = 1)

(***************************************************************************)
(* Inner methods of the cube solver: minimise c.g x + x H x / 2 over the   *)
(* ball of radius c.r (quarters), trsbox also between c.lo and c.up        *)
(* (quarters).  out.u, out.f (M3): points and values of the plain and the  *)
(* compiled version.  Witnesses (M3): c.w the best point of the domain     *)
(* along the projected steepest descent, c.newton the minimum of a convex  *)
(* model that lies inside the ball                                         *)
(***************************************************************************)
InDomain(c, u, boxed, slack) ==
  /\ Norm2(u) <= Sq(250 * c.r) + slack * (500 * c.r + slack)
  /\ ~boxed \/ \A k \in DOMAIN u : 250 * c.lo[k] - slack <= u[k] /\ u[k] <= 250 * c.up[k] + slack

FailedInner(c) ==
  LET o == c.out
      d == Len(c.g)
      boxed == c.method = "trsbox"
      m == [a |-> 0, g |-> c.g, H |-> c.H]
      p == [k \in 1..d |-> IF boxed /\ ((c.g[k] > 0 /\ c.lo[k] = 0)
                                         \/ (c.g[k] < 0 /\ c.up[k] = 0)) THEN 0 ELSE -c.g[k]]
      steepest == /\ InDomain(c, c.w, boxed, 0)
                  /\ \A i, j \in 1..d : Abs(c.w[i] * p[j] - c.w[j] * p[i]) <= Abs(p[i]) + Abs(p[j])
      interior == c.newton # <<>> /\ InDomain(c, c.newton, FALSE, 0)
                  /\ \A k \in 1..d : Abs(M3 * c.g[k] + Dot(c.H[k], c.newton))
                                        <= SumSeq([j \in 1..d |-> Abs(c.H[k][j])])
      (* 2 * 10^6 times values against M3 values with a tolerance of 0.003   *)
      NotWorse(f, w) == 2000 * (f - 3) <= Val3(m, w)
  IN
  FlF("C13.inner_finite", o.finite = 1)
  \cup (IF o.finite = 0 THEN {} ELSE
    FlF("C13.inner_inside_domain", \A q \in 1..2 : InDomain(c, o.u[q], boxed, 1))
    \cup FlF("C13.inner_not_worse_than_steepest_descent",
            ~steepest \/ \A q \in 1..2 : NotWorse(o.f[q], c.w))
    \cup FlF("C13.inner_reaches_interior_minimum",
            ~interior \/ \A q \in 1..2 : NotWorse(o.f[q], c.newton))
    \cup FlF("C13.inner_versions_agree", o.agree = 1)
    \cup FlF("C13.inner_inputs_unchanged", o.pure = 1))

(***************************************************************************)
(* Linear subproblems: minimise c.g x (c.abs = 0) or maximise |a + c.g x|  *)
(* over the ball and the box.  c.w: points of the domain that minimise and *)
(* maximise the linear function (M3)                                       *)
(***************************************************************************)
FailedLinear(c) ==
  LET o == c.out
      Lin(w) == Dot(c.g, w)
      ok(w) == InDomain(c, w, TRUE, 0)
  IN
  FlF("C13.linear_finite", o.finite = 1)
  \cup (IF o.finite = 0 THEN {} ELSE
    FlF("C13.linear_inside_domain", InDomain(c, o.u, TRUE, 1))
    \cup FlF("C13.linear_optimal",
            \A q \in 1..2 : ok(c.w[q]) =>
              IF c.abs = 0 THEN o.v <= Lin(c.w[q]) + 3
              ELSE o.v >= Abs(M3 * c.a + Lin(c.w[q])) - 3)
    \cup FlF("C13.linear_inputs_unchanged", o.pure = 1))
==============================================================================
