----------------------------- MODULE MCTranquilo -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the design of Tranquilo in a small scope.     *)
(*                                                                         *)
(* The environment (criterion values, failures, solutions of the           *)
(* subproblem, positions of points, ratios, simulated ratios) is           *)
(* nondeterministic; the optimizer may perform every event that breaks no  *)
(* clause (Failed = {}).  TLC shows that                                   *)
(*   - the global guarantees (Broken = {}) follow from the clauses,        *)
(*   - the clauses never contradict each other (no deadlock before end),   *)
(*   - every run ends.                                                     *)
(* IOEnv.VH_IGNORE and VH_IGNORE2 name clauses that are ignored, and the   *)
(* optimizer may then also do wrong things (Wrong): the exploration must   *)
(* find a broken guarantee, which shows that the clauses are needed and    *)
(* the guarantee is not vacuous.  IOEnv.VH_SCOPE selects configurations.   *)
(***************************************************************************)
EXTENDS Tranquilo, SequencesExt, IOUtils

VARIABLES env, s, pc, q

vars == <<env, s, pc, q>>

Ignored == {IOEnv.VH_IGNORE, IOEnv.VH_IGNORE2}
Wrong == IOEnv.VH_IGNORE # "none"
Scope == IOEnv.VH_SCOPE
Deep == IOEnv.VH_DEEP = "1"
MaxPts == IF Deep THEN 8 ELSE 7
INF == 9
NEGINF == 0
BAD == 2             \* the infeasible vector

Base ==
  [noisy |-> FALSE, batch |-> 1, ncores |-> 1, target |-> 2, n0 |-> 1, nev0 |-> 1, sf |-> 5 * FP,
   rinit |-> 8, rmin |-> 4, rmax |-> 16, rhodec |-> 1, rhoinc |-> 2, large |-> FP \div 2,
   good |-> 2, maxiter |-> 2, maxeval |-> 100, tmax |-> -1, convdis |-> FALSE,
   keep |-> FP \div 8, minrel |-> FP \div 100, drop |-> TRUE, incr |-> 1, trials |-> 1,
   decider |-> "classic", filter |-> "keep_all", facNum |-> 3, facDen |-> 1,
   sampler |-> "interior", anmin |-> 1, anmax |-> 2, specfac |-> (3 * FP) \div 4, minimp |-> 0,
   draws |-> 2, nmin |-> 1, nmax |-> 2, hiNum |-> 1, hiDen |-> 2, loNum |-> 1, loDen |-> 2]

Noisy == [Base EXCEPT !.noisy = TRUE, !.decider = "noisy", !.n0 = 2]
Line2 == [Base EXCEPT !.decider = "line", !.batch = 2, !.ncores = 2, !.filter = "discard_all"]

Cfgs ==
  CASE Scope = "classic" ->
         {[Base EXCEPT !.filter = f, !.minimp = m, !.convdis = d]
            : f \in {"keep_all", "discard_all"}, m \in {0, 1}, d \in {FALSE}}
    [] Scope = "points" ->
         {[Base EXCEPT !.filter = f, !.facNum = 1, !.trials = 0]
            : f \in {"keep_all", "drop_excess"} \cup (IF Deep THEN {"custom"} ELSE {})}
    [] Scope = "limits" ->
         {[Base EXCEPT !.maxiter = i, !.maxeval = e, !.tmax = t, !.trials = 0, !.convdis = d,
                       !.filter = "discard_all"]
            : i \in {0, 1, 2}, e \in {1, 2, 4, 100}, t \in {-1, 0, 1}, d \in BOOLEAN}
    [] Scope = "stagnation" ->
         {[Base EXCEPT !.trials = t, !.incr = i, !.drop = d, !.target = 2]
            : t \in {0, 1} \cup (IF Deep THEN {2} ELSE {}), i \in {1, 2}, d \in BOOLEAN}
    [] Scope = "line" ->
         {[Line2 EXCEPT !.minimp = m, !.trials = 0, !.batch = b,
                         !.maxiter = IF b = 2 THEN 2 ELSE 1]
            : m \in {0, 1}, b \in {2, 5} \cup (IF Deep THEN {3, 4} ELSE {})}
         \cup {[Line2 EXCEPT !.batch = 1, !.trials = 0, !.filter = "keep_all"]}
    [] Scope = "noisy" ->
         {[Noisy EXCEPT !.filter = f, !.trials = 0, !.nev0 = v]
            : f \in {"discard_all"}, v \in IF Deep THEN {1, 2} ELSE {1}}
    [] Scope = "radius" ->
         {[Base EXCEPT !.filter = "discard_all", !.trials = 0, !.target = 1, !.rmin = m,
                       !.maxiter = IF Deep THEN 3 ELSE 2] : m \in {2, 8}}
    [] Scope = "long" ->
         {[Base EXCEPT !.filter = "discard_all", !.trials = 0, !.target = 1, !.maxiter = 4,
                       !.minimp = m] : m \in {0, 1}}
    [] OTHER -> {}

DeepCfg(c) == IF Deep /\ Scope \notin {"stagnation", "radius", "line", "noisy", "points"} THEN [c EXCEPT !.maxiter = @ + 1] ELSE c

Const(v, n) == [k \in 1..n |-> v]
(* sequences of means of the first k evaluations of a point *)
CandMeans(c) ==
  IF c.noisy
  THEN {Const(1, 6), Const(2, 6), Const(3, 6), <<3, 1, 1, 1, 1, 1>>, <<1, 3, 3, 3, 3, 3>>,
        <<1, INF, INF, INF, INF, INF>>}
  ELSE {Const(v, 2) : v \in CASE Scope = "classic" -> {NEGINF, 1, 2, 3, INF}
                                [] Scope = "points" -> {1, 3}
                                [] Scope = "stagnation" -> {3}
                                [] Scope = "line" -> {NEGINF, 1, 2, INF}
                                [] OTHER -> {1, 2, 3}}
SampleMean(c) == IF c.noisy THEN Const(3, 6) ELSE Const(3, 2)
StartMean(c) == IF c.noisy THEN <<2, 2, 3, 3, 3, 3>> ELSE Const(2, 2)

Fin(m) == [k \in DOMAIN m |-> IF m[k] \in {INF, NEGINF} THEN 0 ELSE 1]
Shift(m, c) == [k \in DOMAIN m |-> IF m[k] \in {INF, NEGINF} THEN m[k] ELSE m[k] + c.minimp]

AddMeans(e, ms) ==
  [e EXCEPT !.mean = @ \o ms, !.fin = @ \o [k \in DOMAIN ms |-> Fin(ms[k])],
            !.shift = @ \o [k \in DOMAIN ms |-> Shift(ms[k], e.cfg)]]

(* vectors 3, 4, ... are used in the order of their first appearance        *)
Fresh(e) == 1 + SetMax({2} \cup {s.pts[k].x : k \in DOMAIN s.pts})
FreshX(e, n) == [k \in 1..n |-> Fresh(e) + k - 1]

(***************************************************************************)
(* Events the environment and the optimizer may produce                    *)
(***************************************************************************)
Q0 == [x |-> <<>>, m |-> 1, border |-> 0, nline |-> 0]

EvAdd(xs) == [e |-> "add", idx |-> [k \in DOMAIN xs |-> Len(s.pts) + k - 1], x |-> xs]

RECURSIVE Rep(_, _)
Rep(v, n) == IF n <= 0 THEN <<>> ELSE <<v>> \o Rep(v, n - 1)
RECURSIVE ArgsOf(_)
ArgsOf(info) == IF info = <<>> THEN <<>>
                ELSE Rep(XOf(s, Head(info).i), Head(info).n) \o ArgsOf(Tail(info))
EvEval(info, t) ==
  LET a == ArgsOf(info)
  IN [e |-> "eval", info |-> info, args |-> a, insim |-> 0, t |-> t,
      calls |-> IF a = <<>> THEN <<>> ELSE <<[nc |-> 1, n |-> Len(a)]>>]
Info(ids, f(_)) ==
  LET all == [k \in DOMAIN ids |-> [i |-> ids[k], n |-> f(ids[k])]]
  IN SelectSeq(all, LAMBDA p : p.n > 0)

Times == IF env.cfg.tmax < 0 THEN {0} ELSE {0, 2}

EvalEvents ==
  CASE s.ph = "start" ->
         {EvEval(<<[i |-> 0, n |-> IF env.cfg.n0 > 1
                                   THEN NextMultiple(env.cfg.n0, env.cfg.batch) ELSE 1]>>, t)
            : t \in Times}
    [] s.ph = "model" /\ s.stage = "first" ->
         {EvEval(Info(s.kept \o s.news,
                      LAMBDA i : IF i \in Range(s.news) THEN n ELSE Max2(0, n - NOf(s, i))), t)
            : n \in 1..3, t \in Times}
    [] s.ph = "model" -> {EvEval(Info(s.pend, LAMBDA i : s.nev), t) : t \in Times}
    [] env.cfg.decider = "noisy" ->
         {EvEval(IF m = 0 THEN <<[i |-> s.trial, n |-> k]>>
                 ELSE <<[i |-> s.trial, n |-> k], [i |-> s.cur.i, n |-> m]>>, 0)
            : k \in 0..3, m \in 0..2}
    [] env.cfg.decider = "line" /\ env.cfg.batch > 1 ->
         {EvEval([k \in 1..(Len(s.pts) - s.base) |-> [i |-> s.base + k - 1, n |-> 1]], t)
            : t \in Times}
    [] OTHER -> {EvEval(<<[i |-> s.trial, n |-> 1]>>, t) : t \in Times}

Dists == CASE Scope = "points" -> {FP \div 2, 3 * FP, 10 * FP}
           [] Scope \in {"stagnation"} -> {FP \div 2, 3 * FP}
           [] OTHER -> {3 * FP}
Rhos == IF Scope \in {"radius", "noisy"} THEN {0, 1, 2} ELSE {0, 1}
Rels == IF Scope = "radius" THEN {FP \div 4, FP \div 2, FP} ELSE {FP}
NoTest == <<1, 1, 1, 1, 1, 1>>
Tests == IF Scope = "limits" THEN {NoTest, <<1, 1, -1, 1, 1, 1>>, <<1, 1, 1, 0, 1, 1>>}
         ELSE {NoTest}
SolRels == IF Scope = "stagnation" THEN {0, FP \div 20, FP} ELSE {0, FP}
DistSeqs ==
  LET n == Len(s.pts)
      others == {k \in 1..n : s.pts[k].x # s.cur.x}
  IN {[k \in 1..n |-> IF k \in others THEN f[k] ELSE 0] : f \in [others -> Dists]}

CandOf(d) == SelectSeq([k \in 1..Len(s.pts) |-> k - 1], LAMBDA i : d[i + 1] <= env.cfg.sf)
KeptSets(cand) ==
  CASE env.cfg.filter = "keep_all" -> {cand}
    [] env.cfg.filter = "discard_all" -> {<<s.cur.i>>}
    [] OTHER -> {SelectSeq(cand, LAMBDA i : i \in K) : K \in SUBSET Range(cand)}

FilterEvent(d, r, kept) ==
  [e |-> "filter", tr |-> [c |-> s.cur.x, r |-> r, rs |-> r \div 2, re |-> 2 * r],
   cand |-> CandOf(d), kept |-> kept, cur |-> s.cur.i, d |-> d, aligned |-> 1]

Tr == [c |-> s.tr.c, r |-> s.tr.r, ratio |-> FP]

SampleEvent(n, xs, ex, tr) ==
  [e |-> "sample", n |-> n, x |-> xs, u |-> [k \in DOMAIN xs |-> FP \div 2], fin |-> 1, ex |-> ex,
   pure |-> 1, tr |-> tr]

ModelSamples(ns) ==
  {SampleEvent(n, xs, [k \in DOMAIN s.kept |-> XOf(s, s.kept[k])], Tr)
     : n \in ns, xs \in UNION {{FreshX(env, m), Rep(BAD, m)} : m \in ns}}

FitEvent(idx) ==
  [e |-> "fit", idx |-> idx, rows |-> [k \in DOMAIN idx |-> XOf(s, idx[k])],
   match |-> [k \in DOMAIN idx |-> <<idx[k]>>], old |-> Max2(s.prevVec, 1), new |-> q.m + 1,
   tr |-> Tr, d |-> s.d \o [k \in 1..(Len(s.pts) - Len(s.d)) |-> FP \div 2]]

Without(ids, gone) == SelectSeq(ids, LAMBDA i : i \notin gone)

SolveEvents ==
  {[e |-> "solve", model |-> s.scal, x |-> x, u |-> FP \div 2, ei |-> IF rel = 0 THEN 0 ELSE 1,
    eiok |-> 1, rel |-> rel, tr |-> Tr]
     : x \in {Fresh(env), BAD, s.cur.x}, rel \in SolRels}
SolveOk(ev) == (ev.x = s.cur.x) = (ev.rel = 0)

AcceptEvents ==
  LET c == env.cfg
      js == Judged(env, s)
      fin == \E j \in js : FinNow(env, s, j)
      curf == IF c.decider = "noisy" THEN MeanNow(env, s, s.cur.i) ELSE s.cur.f
      acc(j, f) == [i |-> j, x |-> XOf(s, j), f |-> f, acc |-> 1]
      yes == {acc(j, MeanNow(env, s, j)) : j \in js} \cup
             (IF Wrong THEN {acc(j, 7) : j \in js} ELSE {})
      no == {[i |-> s.cur.i, x |-> x, f |-> f, acc |-> 0]
               : f \in {s.cur.f} \cup (IF Wrong THEN {7} ELSE {}),
                 x \in {s.cur.x} \cup (IF Wrong THEN {s.sol.x} ELSE {})}
  IN {[e |-> "accept", i |-> r.i, x |-> r.x, f |-> r.f, acc |-> r.acc,
       rho |-> IF fin THEN rho ELSE -9, rhoExp |-> IF fin THEN rho ELSE -9, neginf |-> -9,
       ci |-> j, cx |-> XOf(s, j), step |-> 0, stepExp |-> 0, rel |-> rel, relOut |-> rel,
       cap |-> 99, nacc |-> InfoFun(s.evinfo, s.trial), border |-> q.border, nline |-> q.nline,
       t |-> t, vlink |-> 1]
       : r \in yes \cup no, rho \in Rhos, j \in js, rel \in Rels, t \in Tests}
(* the ratio is positive if and only if the candidate improves (ei > 0)    *)
AcceptOk(ev) == IF Scope \in {"radius", "noisy"}
                THEN (ev.rho > 0) => (ev.acc = 1 \/ env.cfg.noisy)
                ELSE (ev.rho > 0) = (ev.acc = 1) \/ ev.rho = -9

SimEvents ==
  {[e |-> "sim", n |-> env.cfg.draws, hi |-> hi, lo |-> lo, old |-> Max2(s.prevVec, 1),
    vec |-> s.vec, olds |-> <<Max2(s.prevVec, 1)>>,
    rows |-> <<[k \in DOMAIN s.model |-> XOf(s, s.model[k])]>>,
    regions |-> <<Tr>>, vlink |-> 1] : hi \in 0..env.cfg.draws, lo \in 0..env.cfg.draws}
SimOk(ev) == ev.hi <= ev.lo

EndState(r) ==
  [i |-> r.i, x |-> r.x, f |-> r.f, acc |-> r.acc, rho |-> r.rho, ci |-> r.ci, cx |-> r.cx,
   c |-> r.c, r |-> r.r, step |-> r.step, nev |-> r.nev, vm |-> r.vm, sm |-> r.sm, rel |-> r.rel,
   nacc |-> r.nacc, mi |-> SetToSeq(r.mi), new |-> SetToSeq(r.new), used |-> SetToSeq(r.used),
   disc |-> SetToSeq(r.disc)]
EndEvents ==
  LET f0 == Look(env.mean, 0, NOf(s, 0))
      first == Look(env.mean, 0, IF env.cfg.n0 > 1 THEN NextMultiple(env.cfg.n0, env.cfg.batch)
                                 ELSE 1)
  IN {[e |-> "end", x |-> s.cur.x, f |-> s.cur.f, f0 |-> first,
       st |-> <<[i |-> 0, x |-> env.x0, f |-> first]>> \o
              [k \in DOMAIN s.recs |-> EndState(s.recs[k])],
       msg |-> m, nfun |-> s.nfun, store |-> <<>>, ledger |-> <<>>,
       xs |-> [k \in DOMAIN s.pts |-> s.pts[k].x], elapsed |-> s.span]
        : m \in {0, 1, 2, 3, 4, 5, 6, 10, 11}}

(***************************************************************************)
(* The scheduler: the order of the calls in one iteration                  *)
(***************************************************************************)
Permitted(ev) == Failed(env, s, ev) \ Ignored = {}
Do(ev, pc2, q2) ==
  /\ Permitted(ev)
  /\ s' = Step(env, s, ev)
  /\ pc' = pc2
  /\ q' = q2

Init ==
  /\ env \in {[cfg |-> DeepCfg(c), x0 |-> 1, initx |-> <<1>>, feas |-> [k \in 1..60 |-> IF k = BAD THEN 0 ELSE 1],
               mean |-> <<StartMean(c)>>, fin |-> <<Fin(StartMean(c))>>,
               shift |-> <<Shift(StartMean(c), c)>>] : c \in Cfgs}
  /\ s = InitState(env)
  /\ pc = "eval"
  /\ q = Q0

AfterEval == CASE s.ph = "start" -> "decide"
               [] s.ph = "model" -> "fit"
               [] OTHER -> "accept"

Eval == /\ pc = "eval"
        /\ \E ev \in EvalEvents :
             \/ Do(ev, AfterEval, q)
             \/ Wrong /\ Do([ev EXCEPT !.args = @ \o <<1>>], AfterEval, q)
        /\ UNCHANGED env

Filter == /\ pc = "decide"
          /\ \E d \in DistSeqs : \E r \in s.radii : \E k \in KeptSets(CandOf(d)) :
               \/ Do(FilterEvent(d, r, k), "sample", [q EXCEPT !.x = <<>>])
               \/ /\ Wrong
                  /\ \/ Do([FilterEvent(d, r, k) EXCEPT !.tr.c = BAD], "sample",
                           [q EXCEPT !.x = <<>>])
                     \/ Do([FilterEvent(d, r, k) EXCEPT !.tr.r = 33], "sample",
                           [q EXCEPT !.x = <<>>])
          /\ UNCHANGED env

Sample == /\ pc = "sample"
          /\ \E ev \in ModelSamples(0..Max2(3, env.cfg.batch)) :
               /\ ev.n = Len(ev.x)
               /\ Do(ev, "add", [q EXCEPT !.x = ev.x])
          /\ UNCHANGED env

(* points of the sample enter the history *)
AddSample ==
  /\ pc = "add" /\ s.ph = "model"
  /\ IF q.x = <<>> THEN s' = s /\ pc' = "eval" /\ q' = q /\ env' = env
     ELSE /\ Do(EvAdd(q.x), "eval", q)
          /\ env' = AddMeans(env, [k \in DOMAIN q.x |-> SampleMean(env.cfg)])

Fit == /\ pc = "fit"
       /\ \E gone \in IF s.stage = "first" THEN {{}}
                      ELSE {g \in SUBSET Range(s.model) : Cardinality(g) <= 2} :
            Do(FitEvent(IF s.stage = "first" THEN s.kept \o s.news
                        ELSE Without(s.model, gone) \o s.pend), "agg", [q EXCEPT !.m = @ + 1])
       /\ UNCHANGED env

Agg == pc = "agg" /\ Do([e |-> "agg", vec |-> s.vec, new |-> 100 + s.vec], "solve", q)
       /\ UNCHANGED env

Solve == /\ pc = "solve"
         /\ \E ev \in SolveEvents : SolveOk(ev) /\ Do(ev, "next", [q EXCEPT !.x = <<ev.x>>])
         /\ UNCHANGED env

Drop == /\ pc = "next"
        /\ \E i \in Range(s.model) :
             Do(FitEvent(Without(s.model, {i})), "agg", [q EXCEPT !.m = @ + 1])
        /\ UNCHANGED env

Replace == /\ pc = "next"
           /\ \E ev \in ModelSamples({env.cfg.incr}) :
                Do(ev, "add", [q EXCEPT !.x = ev.x])
           /\ UNCHANGED env

Begin == /\ pc = "next"
         /\ Do([e |-> "begin", x |-> s.sol.x], "trial", q)
         /\ UNCHANGED env

(* the candidate enters the history, for a line search a whole batch *)
AddTrial ==
  /\ pc = "trial"
  /\ Do(EvAdd(<<s.sol.x>>), IF env.cfg.decider = "line" /\ env.cfg.batch > 1 THEN "line"
                            ELSE "eval", [q EXCEPT !.border = 0, !.nline = 0])
  /\ \E m \in CandMeans(env.cfg) : env' = AddMeans(env, <<m>>)

LinePoints ==
  /\ pc = "line"
  /\ \E border \in {1, -1} :
       LET n == IF border = 1 THEN Min2(env.cfg.batch, 4) - 1 ELSE 0
           xs == FreshX(env, n)
       IN IF n = 0 THEN s' = s /\ env' = env /\ pc' = "spec" /\ q' = [q EXCEPT !.border = border]
          ELSE /\ Do(EvAdd(xs), "spec", [q EXCEPT !.border = border, !.nline = n])
               /\ \E m \in CandMeans(env.cfg) :
                    env' = AddMeans(env, <<m>> \o Rep(SampleMean(env.cfg), n - 1))

SpecSample ==
  /\ pc = "spec"
  /\ LET n == env.cfg.batch - 1 - q.nline IN
     IF n = 0 THEN s' = s /\ pc' = "eval" /\ q' = q
     ELSE \E xs \in {FreshX(env, n), Rep(BAD, n)} :
            Do(SampleEvent(n, xs, <<>>, [c |-> XOf(s, s.trial), r |-> 6, ratio |-> env.cfg.specfac]),
               "addspec", [q EXCEPT !.x = xs])
  /\ UNCHANGED env

AddSpec ==
  /\ pc = "addspec"
  /\ Do(EvAdd(q.x), "eval", q)
  /\ \E m \in CandMeans(env.cfg) :
       env' = AddMeans(env, <<m>> \o Rep(SampleMean(env.cfg), Len(q.x) - 1))

Accept == /\ pc = "accept"
          /\ \E ev \in AcceptEvents :
               /\ AcceptOk(ev)
               /\ Do(ev, IF env.cfg.noisy THEN "sim" ELSE "decide", [q EXCEPT !.x = <<>>, !.m = 1 + s.vec])
          /\ UNCHANGED env

Sim == /\ pc = "sim"
       /\ \E ev \in SimEvents : SimOk(ev) /\ Do(ev, "decide", q)
       /\ UNCHANGED env

End == /\ pc = "decide"
       /\ \E ev \in EndEvents : Do(ev, "ended", q)
       /\ UNCHANGED env

Finished == pc = "ended" /\ UNCHANGED vars

Next == \/ Eval \/ Filter \/ Sample \/ AddSample \/ Fit \/ Agg \/ Solve \/ Drop \/ Replace
        \/ Begin \/ AddTrial \/ LinePoints \/ SpecSample \/ AddSpec \/ Accept \/ Sim \/ End
        \/ Finished

Spec == Init /\ [][Next]_vars

Guarantees == Broken(env, s) = {}

(* the incumbent only changes when a candidate is accepted                 *)
OnlyAcceptMoves ==
  [][(s.cur.i # s'.cur.i \/ s.cur.x # s'.cur.x) => pc = "accept"]_vars
(* no point loses evaluations, no point is forgotten *)
HistoryGrows ==
  [][/\ Len(s.pts) <= Len(s'.pts)
     /\ \A k \in DOMAIN s.pts : /\ s'.pts[k].x = s.pts[k].x
                                /\ s'.pts[k].n >= s.pts[k].n]_vars
Bounded == Len(s.pts) <= MaxPts
==============================================================================
