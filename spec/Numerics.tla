------------------------------- MODULE Numerics -------------------------------
(***************************************************************************)
(* Models, fits, regions, volumes and variances in exact and fixed point   *)
(* arithmetic.  M3, M4 and M6 stand for one.                               *)
(***************************************************************************)
EXTENDS Filters, SequencesExt

INFB == 2000000000
M3 == 1000
M4 == 10000
M6 == 1000000
Near(a, b, tol) == Abs(a - b) <= tol

Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
Quad(H, u) == SumSeq([i \in DOMAIN u |-> SumSeq([j \in DOMAIN u |-> H[i][j] * u[i] * u[j]])])

(* twice the value of a model with integer coefficients at an integer u    *)
(* m = [a, g, H]; H = <<>> if the model is linear                          *)
Twice(m, u) == 2 * m.a + 2 * Dot(m.g, u) + (IF m.H = <<>> THEN 0 ELSE Quad(m.H, u))

(***************************************************************************)
(* Operations on models: c.m sequence of models (one per residual), c.u    *)
(* integer points, c.out.y[k][r] predictions (M3) after the operation      *)
(***************************************************************************)
SameValues(y, exp2) ==   \* exp2: twice the expected values
  /\ DOMAIN y = DOMAIN exp2
  /\ \A k \in DOMAIN y : /\ DOMAIN y[k] = DOMAIN exp2[k]
                         /\ \A r \in DOMAIN y[k] : Near(2 * y[k][r], M3 * exp2[k][r], 3)

FailedMove(c) ==
  FlF("C21.move_keeps_predictions",
      SameValues(c.out.y, [k \in DOMAIN c.u |-> [r \in DOMAIN c.m |-> Twice(c.m[r], c.u[k])]]))
  \cup FlF("C21.predict",
      SameValues(c.out.y0, [k \in DOMAIN c.u |-> [r \in DOMAIN c.m |-> Twice(c.m[r], c.u[k])]]))
  \cup FlF("C21.moved_to_region", c.out.meta = 1)
  \cup FlF("C21.inputs_unchanged", c.out.pure = 1)

FailedAddModels(c) ==
  IF c.bad # "none"
  THEN FlF("C21.rejects_incompatible", "err" \in DOMAIN c.out)
  ELSE IF "err" \in DOMAIN c.out THEN {"C21.crash"}
  ELSE FlF("C21.sum_of_predictions",
           SameValues(c.out.y, [k \in DOMAIN c.u |->
              [r \in DOMAIN c.m |-> Twice(c.m[r], c.u[k]) + Twice(c.m2[r], c.u[k])]]))
       \cup FlF("C21.inputs_unchanged", c.out.pure = 1)

FailedAggregate(c) ==
  LET lin(r, k) == Twice(c.m[r], c.u[k]) \div 2     \* models are linear here
      exp(k) == CASE c.agg = "least_squares_linear" ->
                       2 * SumSeq([r \in DOMAIN c.m |-> Sq(lin(r, k))])
                  [] c.agg = "identity" -> Twice(c.m[1], c.u[k])
                  [] OTHER -> SumSeq([r \in DOMAIN c.m |-> Twice(c.m[r], c.u[k])])
  IN FlF("C21.aggregate", SameValues(c.out.y, [k \in DOMAIN c.u |-> <<exp(k)>>]))
     \cup FlF("C21.inputs_unchanged", c.out.pure = 1)

(***************************************************************************)
(* Fits.  Features of u: 1, u, and for quadratic models the halved squares *)
(* and the cross terms, in the order of the upper triangle.                *)
(***************************************************************************)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Feat2(u, quad) ==      \* twice the features
  LET d == Len(u) IN
  <<2>> \o [k \in 1..d |-> 2 * u[k]] \o
  (IF quad THEN Flat([i \in 1..d |-> [j \in 1..(d - i + 1) |->
                  IF j = 1 THEN u[i] * u[i] ELSE 2 * u[i] * u[i + j - 1]]]) ELSE <<>>)

CoefOf(m, quad) ==
  LET d == Len(m.g) IN
  <<m.a>> \o m.g \o
  (IF quad THEN Flat([i \in 1..d |-> [j \in 1..(d - i + 1) |->
                  IF m.H = <<>> THEN 0 ELSE m.H[i][i + j - 1]]]) ELSE <<>>)

(* c.u sample in unit coordinates, c.m data generating models,             *)
(* c.det: the sample determines the model, c.out.coef[r] fitted (M4),      *)
(* c.pen: weights of the penalised criterion (integers, den c.penden)      *)
FailedFitCase(c) ==
  LET quad == c.type = "quadratic"
      F == [k \in DOMAIN c.u |-> Feat2(c.u[k], quad)]
      res == DOMAIN c.m
      true(r) == CoefOf(c.m[r], quad)
      fitted(r) == c.out.coef[r]
      fit2(r, k) == Dot(F[k], fitted(r))                \* 2 * M4 * value
      okShape == /\ DOMAIN c.out.coef = res
                 /\ \A r \in res : Len(fitted(r)) = Len(true(r))
      old(r) == IF c.resid = 1 THEN CoefOf(c.mold[r], quad)   \* after its move
                ELSE [i \in DOMAIN true(r) |-> 0]
  IN
  FlF("C20.shape", okShape)
  \cup (IF ~okShape THEN {} ELSE
    (IF c.fitter = "ridge"
     THEN LET viol(r) == \E i \in DOMAIN true(r) :
                \* 2 X'(X b - y) + 2 P (b - b_old) = 0, times 2 penden
                LET s == SumSeq([k \in DOMAIN c.u |->
                            F[k][i] * ((fit2(r, k) - M4 * Twice(c.m[r], c.u[k])) \div 2)])
                    p == c.pen[i] * (fitted(r)[i] - M4 * old(r)[i])
                    \* s is 2 * (X'(Xb - y))_i * M4, p is penden * (P (b - old))_i * M4
                IN Abs(s * c.penden + 2 * p) > 60 * c.penden * Len(c.u) * 4
          IN FlF(IF c.resid = 1 THEN "C31.penalised_change_from_old_model"
                 ELSE "C20.penalised_criterion", \A r \in res : ~viol(r))
     ELSE IF c.misfit = 1
     THEN \* normal equations of the least squares fit, which do not depend on penalties or
          \* on the old model because there are more points than coefficients
          FlF(IF c.resid = 1 THEN "C31.least_squares" ELSE "C20.least_squares",
              \A r \in res : \A i \in DOMAIN true(r) :
                 Abs(SumSeq([k \in DOMAIN c.u |->
                       F[k][i] * ((fit2(r, k) - M4 * (Twice(c.m[r], c.u[k]) + 2 * c.e[k][r])) \div 2)]))
                   <= 60 * Len(c.u) * 4)
     ELSE FlF(IF c.resid = 1 THEN "C31.fit_to_residuals" ELSE "C20.interpolates",
              \A r \in res : \A k \in DOMAIN c.u :
                 Near(fit2(r, k), M4 * Twice(c.m[r], c.u[k]), 40 * Len(true(r))))
     \cup (IF c.det = 1
           THEN FlF(IF c.resid = 1 THEN "C31.recovers" ELSE "C20.recovers",
                    \A r \in res : \A i \in DOMAIN true(r) :
                       Near(fitted(r)[i], M4 * true(r)[i], 20))
           ELSE IF c.orth = 1
           THEN LET n == Len(true(1))
                    nulls == {h \in [1..n -> -1..1] :
                                \A k \in DOMAIN c.u : Dot(F[k], h) = 0}
                IN FlF(IF c.resid = 1 THEN "C31.smallest_change_from_old_model"
                       ELSE "C20.penalised_criterion",
                       \A r \in res : \A h \in nulls :
                         Abs(SumSeq([i \in 1..n |->
                               c.pen[i] * h[i] * (fitted(r)[i] - M4 * old(r)[i])]))
                           <= 20 * SumSeq([i \in 1..n |-> c.pen[i]]))
           ELSE {})))
  \cup FlF("C20.inputs_unchanged", c.out.pure = 1)
  \cup FlF("C20.unit_coordinates", c.out.meta = 1)

(***************************************************************************)
(* Regions.  KCUBE[d] is the half side length of the cube with the volume  *)
(* of the unit ball (M6).                                                  *)
(***************************************************************************)
KCUBE == <<1000000, 886227, 805996, 745202, 696962>>

FailedRegion(c) ==
  LET d == Len(c.c)
      o == c.out
      
      binding == \E k \in 1..d : \/ (c.lo[k] # -INFB /\ c.c[k] - c.lo[k] <= c.r)
                                 \/ (c.up[k] # INFB /\ c.up[k] - c.c[k] <= c.r)
      w == (c.r * KCUBE[d]) \div M3              \* M3
      lo(k) == Max2(M3 * c.c[k] - w, IF c.lo[k] = -INFB THEN -M6 ELSE M3 * c.lo[k])
      up(k) == Min2(M3 * c.c[k] + w, IF c.up[k] = INFB THEN M6 ELSE M3 * c.up[k])
      box == o.shape = "cube"
      inside(x) == IF box THEN \A k \in 1..d : M3 * x[k] >= lo(k) /\ M3 * x[k] <= up(k)
                   ELSE Dist2(x, c.c) <= c.r * c.r
      \* unit coordinates times effective radius plus effective centre
      image(u, k) == (u[k] * o.effr[k]) \div M3 + o.effc[k]
  IN
  FlF("C19.shape", o.shape = IF binding THEN "cube" ELSE "sphere")
  \cup FlF("C19.volume_preserving_cube_cut_at_bounds",
           ~box \/ \A k \in 1..d : Near(o.cl[k], lo(k), 2) /\ Near(o.cu[k], up(k), 2))
  \cup FlF("C19.effective_centre_and_radius",
           \A k \in 1..d : IF box
              THEN Near(2 * o.effc[k], lo(k) + up(k), 4) /\ Near(2 * o.effr[k], up(k) - lo(k), 4)
              ELSE o.effc[k] = M3 * c.c[k] /\ o.effr[k] = M3 * c.r)
  \cup FlF("C19.to_unit",
           \A j \in DOMAIN c.x : \A k \in 1..d : Near(image(o.u[j], k), M3 * c.x[j][k], 60))
  \cup FlF("C19.image_in_unit_ball_or_cube",
           \A j \in DOMAIN c.x : inside(c.x[j]) =>
              IF box THEN \A k \in 1..d : Abs(o.u[j][k]) <= M3 + 1
              ELSE SumSeq([k \in 1..d |-> Sq(o.u[j][k])]) <= M6 + 2000 * d)
  \cup FlF("C19.back_and_forth",
           \A j \in DOMAIN c.x : inside(c.x[j]) =>
              \A k \in 1..d : Near(o.back[j][k], M6 * c.x[j][k], 3))
  \cup FlF("C19.unit_points_within_bounds", o.inb = 1)
  \cup FlF("C19.unit_roundtrip", o.unitback = 1)
  \cup FlF("C19.inputs_unchanged", o.pure = 1)

(***************************************************************************)
(* Volumes: VBALL[d] is the volume of the unit ball (M4).                  *)
(***************************************************************************)
VBALL == <<20000, 31416, 41888, 49348, 52638, 51677>>
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

FailedVolume(c) ==
  LET o == c.out
      d == c.d  r == c.r
      rel(a, b) == Abs(a - b) <= 2 + (IF b < 0 THEN -b ELSE b) \div 2000
  IN
  (IF d <= 4 /\ r > 0
   THEN FlF("C34.volume",
            /\ rel(o.cube, M4 * Pow(2 * r, d))
            /\ rel(o.ball, VBALL[d] * Pow(r, d)))
   ELSE {})
  \cup FlF("C34.inverse", o.invcube = M6 /\ o.invball = M6)
  \cup FlF("C34.conversion_inverse", o.conv = M6 /\ o.conv2 = M6)
  \cup FlF("C34.conversion_preserves_volume", o.vol1 = M6 /\ o.vol2 = M6)
  \cup FlF("C34.conversion_scaled", o.vol3 = M6 /\ o.vol4 = M6)
  \cup FlF("C34.scaling", o.scal = M6)
  \cup FlF("C34.monotone", o.mono = 1)
  \cup FlF("C34.recursion", d <= 2 \/ Near(o.recur * d, 6283185, 2 * d))
  \cup FlF("C34.rejects_unknown_shape", o.rej = 1)

(***************************************************************************)
(* Variances: c.pts positions, c.v[k] sequences of integer vectors,        *)
(* c.fail[k][i] # 0 if that evaluation failed; it has no influence         *)
(* out.s and out.m (M3) scalar variance and covariance matrix              *)
(***************************************************************************)
FailedVariance(c) ==
  LET near == {k \in DOMAIN c.pts : Sq(c.facden) * Dist2(c.pts[k], c.cx) <= Sq(c.r * c.fac)}
      \* evaluations that did not fail
      w == [k \in DOMAIN c.v |->
              LET i == SetToSortSeq({i \in DOMAIN c.v[k] : c.fail[k][i] = 0}, <)
              IN [j \in DOMAIN i |-> c.v[k][i[j]]]]
      most == SetMax({Len(w[k]) : k \in near})
      \* a variance needs two evaluations
      need == Max2(2, Min2(most, c.min))
      used == SetToSeq({k \in near : Len(w[k]) >= need})
      N == SumSeq([i \in DOMAIN used |-> Len(w[used[i]])])
      val(v) == IF c.ft = "least_squares" THEN SumSeq([k \in DOMAIN v |-> Sq(v[k])])
                ELSE SumSeq(v)
      \* 12 N times the weighted average of the unbiased covariances
      total(f(_), g(_)) ==
        SumSeq([i \in DOMAIN used |->
          LET q == w[used[i]]  n == Len(q) IN
          (12 \div (n - 1)) *
            (n * SumSeq([k \in 1..n |-> f(q[k]) * g(q[k])])
             - SumSeq([k \in 1..n |-> f(q[k])]) * SumSeq([k \in 1..n |-> g(q[k])]))])
      ok(out, tot) == /\ Abs(out) <= 1000000
                      /\ Abs(out * 12 * N - M3 * tot) <= 24 * N
      D == Len(c.v[1][1])
  IN FlF("C18.variance", ok(c.out.s, total(val, val)))
     \cup FlF("C18.covariance",
              /\ Len(c.out.m) = D
              /\ \A i \in 1..D : Len(c.out.m[i]) = D /\ \A j \in 1..D :
                   ok(c.out.m[i][j], total(LAMBDA q : q[i], LAMBDA q : q[j])))
     \cup FlF("C18.history_unchanged", c.out.pure = 1)
==============================================================================
