------------------------------ MODULE Tranquilo ------------------------------
(***************************************************************************)
(* The optimizer's main loop as a state machine.                           *)
(*                                                                         *)
(* A behaviour is driven by events.  One event stands for one call of a    *)
(* component (evaluate, filter, sample, fit, solve, accept, simulate) or   *)
(* for the end of a run.  For a problem environment env, a state s and an  *)
(* event ev                                                                *)
(*    Failed(env, s, ev)  is the set of names of the clauses that the      *)
(*                        event breaks in this state; a name starts with   *)
(*                        the id of the property it belongs to;            *)
(*    Step(env, s, ev)    is the state after the event.                    *)
(* The design allows exactly the events with Failed = {}.  MCTranquilo     *)
(* explores this design exhaustively in a small scope and shows that the   *)
(* global guarantees (state invariants below) follow from the clauses;     *)
(* TraceTranquilo evaluates the same clauses and invariants on recorded    *)
(* runs of the implementation.                                             *)
(*                                                                         *)
(* env is a record: cfg (options of the run), x0 (id of the start vector), *)
(* feas[x] (feasibility of vector x), mean[i][k], shift[i][k], fin[i][k]   *)
(* (mean of the first k values at point i, the same plus the minimum       *)
(* improvement, finiteness).  Points are numbered from 0, vectors from 1.  *)
(* Lengths relative to the radius are fixed point numbers (FP = 1).        *)
(***************************************************************************)
EXTENDS Rules, TLC

FP == 1000000
BAND == 3

Fl(name, ok) == IF ok THEN {} ELSE {name}

(* three-valued a < b for fixed point numbers: 1 yes, -1 no, 0 unknown     *)
Less(a, b) == IF b <= 0 THEN -1
              ELSE IF a <= b - BAND THEN 1
              ELSE IF a >= b + BAND THEN -1 ELSE 0

InitState(env) ==
  [ph     |-> "start",
   pts    |-> [k \in DOMAIN env.initx |-> [x |-> env.initx[k], n |-> 0]],
   nfun   |-> 0,
   cur    |-> [i |-> 0, x |-> env.x0, f |-> -1],
   radii  |-> {env.cfg.rinit},       \* allowed radii of the next iteration
   tr     |-> [c |-> env.x0, r |-> env.cfg.rinit],
   iter   |-> 0,
   nev    |-> env.cfg.nev0,          \* evaluations per point
   nevs   |-> {env.cfg.nev0},        \* allowed values for the next iteration
   cand   |-> <<>>, kept |-> <<>>, news |-> <<>>, d |-> <<>>,
   nreq   |-> -1,
   model  |-> <<>>,                  \* indices of the last fit
   stage  |-> "none",                \* first, keep, replace
   trials |-> 0, sampled |-> FALSE,
   pend   |-> <<>>,                  \* points added by a replacement
   vec    |-> -1, scal |-> -1, prevVec |-> -1,
   sol    |-> [x |-> -1, rel |-> -1],
   solved |-> FALSE,
   base   |-> -1, trial |-> -1, evinfo |-> <<>>, spec |-> -1,
   rad    |-> [r |-> -1],
   t      |-> <<>>, acc |-> TRUE,
   span   |-> 0,                     \* ms from first to last evaluation
   recs   |-> <<>>,
   simmed |-> FALSE,
   done   |-> FALSE]

Known(s, i) == i >= 0 /\ i < Len(s.pts)
XOf(s, i) == IF Known(s, i) THEN s.pts[i + 1].x ELSE -1
NOf(s, i) == IF Known(s, i) THEN s.pts[i + 1].n ELSE -1

Look(tab, i, k) == IF i + 1 \in DOMAIN tab /\ k \in DOMAIN tab[i + 1] THEN tab[i + 1][k] ELSE -1
MeanNow(env, s, i) == Look(env.mean, i, NOf(s, i))
ShiftNow(env, s, i) == Look(env.shift, i, NOf(s, i))
FinNow(env, s, i) == Look(env.fin, i, NOf(s, i)) = 1

Feas(env, x) == x \in DOMAIN env.feas /\ env.feas[x] = 1

InfoIdx(info) == [k \in DOMAIN info |-> info[k].i]
InfoFun(info, i) == SumSeq([k \in DOMAIN info |-> IF info[k].i = i THEN info[k].n ELSE 0])
InfoSum(info) == SumSeq([k \in DOMAIN info |-> info[k].n])

(***************************************************************************)
(* add: vectors are appended to the history                                *)
(***************************************************************************)
FailedAdd(env, s, ev) ==
  Fl("C27.consecutive_index",
     /\ Len(ev.idx) = Len(ev.x)
     /\ \A k \in DOMAIN ev.idx : ev.idx[k] = Len(s.pts) + k - 1)

StepAdd(env, s, ev) ==
  LET first == Len(s.pts) IN
  [s EXCEPT !.pts = @ \o [k \in DOMAIN ev.x |-> [x |-> ev.x[k], n |-> 0]],
            !.news = IF s.ph = "model" /\ s.stage = "first" THEN @ \o ev.idx ELSE @,
            !.pend = IF s.ph = "model" /\ s.stage # "first" THEN @ \o ev.idx ELSE @,
            !.trial = IF s.ph = "accept" /\ @ = -1 /\ Len(ev.idx) > 0 THEN first ELSE @]

(***************************************************************************)
(* eval: the criterion is evaluated                                        *)
(***************************************************************************)
(* the vectors passed to the criterion are those of the requested points   *)
ArgsMatch(s, ev) ==
  LET xs == {XOf(s, i) : i \in Range(InfoIdx(ev.info))} \cup Range(ev.args)
  IN  /\ Len(ev.args) = InfoSum(ev.info)
      /\ \A x \in xs :
           CountOf(ev.args, x) =
             SumSeq([k \in DOMAIN ev.info |->
                      IF XOf(s, ev.info[k].i) = x THEN ev.info[k].n ELSE 0])

Total(s, ev, i) == NOf(s, i) + InfoFun(ev.info, i)

FailedEvalModel(env, s, ev) ==
  IF s.stage = "first"
  THEN Fl("C08.evals_per_point",
          \A i \in Range(s.kept) \cup Range(s.news) :
             \E n \in s.nevs : Total(s, ev, i) >= n)
       \cup Fl("C15.all_model_points",
          \A i \in Range(s.kept) \cup Range(s.news) :
             \E n \in s.nevs : Total(s, ev, i) >= n)
       \cup Fl("C15.evals_exact",
          \E n \in s.nevs :
            /\ \A i \in Range(s.news) : Total(s, ev, i) = n
            /\ \A i \in Range(s.kept) : Total(s, ev, i) = Max2(NOf(s, i), n))
       \cup Fl("C08.evaluates_model_points_only",
          Range(InfoIdx(ev.info)) \subseteq Range(s.kept) \cup Range(s.news))
  ELSE Fl("C28.evals_of_replacements",
          /\ Range(InfoIdx(ev.info)) \subseteq Range(s.pend)
          /\ \A i \in Range(s.pend) : Total(s, ev, i) = s.nev)

FailedEvalAccept(env, s, ev) ==
  LET c == env.cfg
      idx == Range(InfoIdx(ev.info))
  IN CASE c.decider = "noisy" ->
            Fl("C32.points", /\ idx \subseteq {s.trial, s.cur.i}
                             /\ s.trial \in idx)
            \cup Fl("C32.candidate_within_limits",
                    /\ InfoFun(ev.info, s.trial) >= c.anmin
                    /\ InfoFun(ev.info, s.trial) <= Max2(c.anmin, c.anmax))
            \cup Fl("C32.current_within_limits",
                    Total(s, ev, s.cur.i) <= Max2(NOf(s, s.cur.i), c.anmax))
       [] c.decider = "naive_noisy" ->
            Fl("C02.candidate_evaluations", idx = {s.trial} /\ InfoSum(ev.info) = 10)
       [] c.decider = "line" /\ c.batch > 1 ->
            Fl("C26.one_batch",
               /\ InfoSum(ev.info) = c.batch
               /\ s.trial \in idx
               /\ \A k \in DOMAIN ev.info : ev.info[k].n = 1
               /\ idx = s.base..(Len(s.pts) - 1))
       [] OTHER ->
            Fl("C02.candidate_evaluations", idx = {s.trial} /\ InfoSum(ev.info) = 1)

FailedEval(env, s, ev) ==
  LET c == env.cfg IN
  Fl("C04.arguments", ArgsMatch(s, ev))
  \cup Fl("C04.known_points", \A k \in DOMAIN ev.info : Known(s, ev.info[k].i))
  \cup Fl("C04.distinct_keys", Cardinality(Range(InfoIdx(ev.info))) = Len(ev.info))
  \cup Fl("C01.feasible_evaluation", \A k \in DOMAIN ev.args : Feas(env, ev.args[k]))
  \cup Fl("C25.empty_request_no_call", Len(ev.calls) <= InfoSum(ev.info))
  \cup Fl("C25.workers", \A k \in DOMAIN ev.calls :
            ev.calls[k].nc >= 1 /\ ev.calls[k].nc <= c.ncores /\ ev.calls[k].nc <= ev.calls[k].n)
  \cup Fl("C33.no_evaluation_in_simulation", ev.insim = 0)
  \cup (CASE s.ph = "start" ->
               Fl("C25.start_batch",
                  /\ Range(InfoIdx(ev.info)) = {0}
                  /\ InfoSum(ev.info) = IF c.n0 > 1 THEN NextMultiple(c.n0, c.batch) ELSE 1)
          [] s.ph = "model" -> FailedEvalModel(env, s, ev)
          [] s.ph = "accept" -> FailedEvalAccept(env, s, ev)
          [] OTHER -> {"C04.unexpected_evaluation"})

StepEval(env, s, ev) ==
  LET pts2 == [k \in DOMAIN s.pts |->
                 [s.pts[k] EXCEPT !.n = @ + InfoFun(ev.info, k - 1)]]
      s2 == [s EXCEPT !.pts = pts2, !.nfun = @ + Len(ev.args),
                      !.span = IF ev.t > @ THEN ev.t ELSE @]
      n2 == IF s.news = <<>> THEN s.nev ELSE s2.pts[s.news[1] + 1].n
  IN CASE s.ph = "start" ->
            [s2 EXCEPT !.ph = "idle", !.cur = [@ EXCEPT !.f = MeanNow(env, s2, 0)]]
       [] s.ph = "accept" -> [s2 EXCEPT !.evinfo = ev.info]
       [] s.ph = "model" /\ s.stage = "first" /\ s.news # <<>> /\ Known(s, s.news[1]) ->
            [s2 EXCEPT !.nev = n2, !.nevs = {n2}]
       [] OTHER -> s2

(***************************************************************************)
(* filter: an iteration starts, existing points are selected               *)
(***************************************************************************)
FailedFilterBuiltin(env, s, ev) ==
  LET c == env.cfg
      cand == Range(ev.cand)  kept == Range(ev.kept)
      lim == DropExcessSize(Len(ev.cand), c.target, c.facNum, c.facDen)
  IN CASE c.filter = "keep_all" -> Fl("C11.keep_all", ev.kept = ev.cand)
       [] c.filter = "discard_all" -> Fl("C11.discard_all", ev.kept = <<s.cur.i>>)
       [] c.filter = "drop_excess" ->
            Fl("C11.drop_excess_size", Len(ev.kept) = lim)
            \cup Fl("C11.current_point_kept", lim = 0 \/ s.cur.i \in kept)
            \cup Fl("C11.furthest_first",
                 \A i \in cand \ kept, j \in kept :
                    \* nothing further out than a dropped point is kept unless
                    \* all kept points are inside the trust region
                    \/ j + 1 \notin DOMAIN ev.d \/ i + 1 \notin DOMAIN ev.d
                    \/ ev.d[j + 1] <= FP + BAND
                    \/ ev.d[j + 1] <= ev.d[i + 1] + BAND)
       [] OTHER -> {}

FailedFilter(env, s, ev) ==
  LET c == env.cfg
      cand == Range(ev.cand)  kept == Range(ev.kept)
  IN
  Fl("C05.iteration_limit", s.iter < c.maxiter)
  \cup Fl("C05.evaluation_limit", s.iter = 0 \/ s.nfun < c.maxeval)
  \cup Fl("C05.time_limit", c.tmax < 0 \/ s.iter = 0 \/ s.span < c.tmax)
  \cup Fl("C06.must_stop", ~(s.iter > 0 /\ s.acc /\ ~c.convdis /\ SomeTestPassed(s.t)))
  \cup Fl("C07.centre", ev.tr.c = s.cur.x)
  \cup Fl("C07.radius", ev.tr.r \in s.radii)
  \cup Fl("C07.radius_limits",
          s.iter = 0 \/ (ev.tr.r >= c.rmin /\ ev.tr.r <= Max2(c.rmin, c.rmax)))
  \cup Fl("C02.current_point", ev.cur = s.cur.i)
  \cup Fl("C08.search_region",
          /\ Cardinality(cand) = Len(ev.cand)
          /\ Len(ev.d) = Len(s.pts)
          /\ \A k \in DOMAIN ev.d :
               /\ (ev.d[k] < c.sf - BAND) => (k - 1) \in cand
               /\ (ev.d[k] > c.sf + BAND) => (k - 1) \notin cand)
  \cup Fl("C08.kept_points", kept \subseteq cand /\ Cardinality(kept) = Len(ev.kept))
  \cup Fl("C11.aligned", ev.aligned = 1)
  \cup FailedFilterBuiltin(env, s, ev)

StepFilter(env, s, ev) ==
  [s EXCEPT !.ph = "model", !.stage = "first",
            !.tr = [c |-> ev.tr.c, r |-> ev.tr.r],
            !.rad = [r |-> ev.tr.r, rs |-> ev.tr.rs, re |-> ev.tr.re],
            !.nev = IF Cardinality(s.nevs) = 1 THEN SetMin(s.nevs) ELSE @,
            !.cand = ev.cand, !.kept = ev.kept, !.d = ev.d,
            !.news = <<>>, !.pend = <<>>, !.nreq = -1, !.model = <<>>,
            !.trials = 0, !.sampled = FALSE, !.solved = FALSE,
            !.prevVec = s.vec, !.trial = -1, !.base = -1, !.evinfo = <<>>,
            !.spec = -1, !.simmed = FALSE]

(***************************************************************************)
(* sample: new points are sampled                                          *)
(***************************************************************************)
MustDrop(env, s) ==  \* 1 yes, -1 no, 0 unknown
  IF s.stage \in {"fitted", "keep"} /\ Len(s.model) > env.cfg.target
  THEN Less(s.sol.rel, env.cfg.keep) ELSE -1
MustReplace(env, s) ==
  IF s.trials < env.cfg.trials THEN Less(s.sol.rel, env.cfg.minrel) ELSE -1

FailedSample(env, s, ev) ==
  LET c == env.cfg
      need == NextMultiple(Max2(0, c.target - Len(s.kept)), c.batch)
  IN
  Fl("C10.number_of_points", Len(ev.x) = ev.n)
  \cup Fl("C10.finite", ev.fin = 1)
  \cup Fl("C10.in_region", \A k \in DOMAIN ev.u : ev.u[k] <= FP + BAND)
  \cup Fl("C10.on_hull", c.sampler # "hull" \/ \A k \in DOMAIN ev.u : Abs(ev.u[k] - FP) <= BAND)
  \cup Fl("C10.inputs_unchanged", ev.pure = 1)
  \cup Fl("C01.feasible_sample", \A k \in DOMAIN ev.x : Feas(env, ev.x[k]))
  \cup (CASE s.ph = "model" /\ s.stage = "first" ->
             Fl("C08.number_of_new_points", ev.n = need)
             \cup Fl("C25.sample_batch", ev.n % c.batch = 0)
             \cup Fl("C08.sampling_region", ev.tr.c = s.tr.c /\ ev.tr.r = s.tr.r)
             \cup Fl("C10.existing_points", ev.ex = [k \in DOMAIN s.kept |-> XOf(s, s.kept[k])])
        [] s.ph = "model" ->
             Fl("C28.replace_only_if_short", MustReplace(env, s) # -1 /\ MustDrop(env, s) # 1)
             \cup Fl("C28.number_of_replacements", ev.n = c.incr)
             \cup Fl("C08.sampling_region", ev.tr.c = s.tr.c /\ ev.tr.r = s.tr.r)
        [] s.ph = "accept" ->
             Fl("C26.speculative_region",
                /\ c.decider = "line" /\ ev.tr.c = XOf(s, s.trial)
                /\ Abs(ev.tr.ratio - c.specfac) <= BAND)
        [] OTHER -> {"C10.unexpected_sampling"})

StepSample(env, s, ev) ==
  IF s.ph = "model" /\ s.stage # "first"
  THEN [s EXCEPT !.trials = @ + 1, !.pend = <<>>, !.sampled = TRUE]
  ELSE IF s.ph = "model" THEN [s EXCEPT !.nreq = ev.n]
  ELSE [s EXCEPT !.spec = ev.n]

(***************************************************************************)
(* fit: a vector valued surrogate model is fitted                          *)
(***************************************************************************)
Dropped(s, ev) == Range(s.model) \ Range(ev.idx)

(* the dropped point is the furthest one if any point is outside the region *)
WorstDropped(s, gone) ==
  \A i \in gone :
     /\ i # s.cur.i
     /\ \A j \in Range(s.model) \ gone :
          \/ j + 1 \notin DOMAIN s.d
          \/ s.d[j + 1] <= FP + BAND
          \/ (i + 1 \in DOMAIN s.d /\ s.d[j + 1] <= s.d[i + 1] + BAND)

FailedFit(env, s, ev) ==
  LET c == env.cfg
      idx == Range(ev.idx)
      gone == Dropped(s, ev)
      added == idx \ Range(s.model)
  IN
  Fl("C08.distinct_points", Cardinality(idx) = Len(ev.idx))
  \cup Fl("C08.known_points", \A i \in idx : Known(s, i) /\ NOf(s, i) >= 1)
  \cup Fl("C08.current_point_in_sample",
          c.filter \in {"custom", "clustering"} \/ s.cur.i \in idx)
  \cup Fl("C08.evaluations_of_model_points", \A i \in idx : NOf(s, i) >= s.nev)
  \cup Fl("C09.points", Len(ev.rows) = Len(ev.idx)
                        /\ \A k \in DOMAIN ev.idx :
                             k \in DOMAIN ev.rows /\ ev.rows[k] = XOf(s, ev.idx[k]))
  \cup Fl("C09.averages", Len(ev.match) = Len(ev.idx)
                          /\ \A k \in DOMAIN ev.idx :
                               k \in DOMAIN ev.match /\ ev.idx[k] \in Range(ev.match[k]))
  \cup Fl("C31.old_model", s.prevVec = -1 \/ ev.old = s.prevVec)
  \cup Fl("C31.fit_region", ev.tr.c = s.tr.c /\ ev.tr.r = s.tr.r)
  \cup (IF s.stage = "first"
        THEN Fl("C08.sample_is_kept_and_new",
                idx = Range(s.kept) \cup Range(s.news) /\ Len(ev.idx) = Len(s.kept) + Len(s.news))
             \cup Fl("C08.target_size", Len(ev.idx) >= c.target)
        ELSE Fl("C28.current_point_stays", s.cur.i \notin Range(s.model) \/ s.cur.i \in idx) \cup
        IF ~s.sampled
        THEN Fl("C28.drop_only_if_short", MustDrop(env, s) # -1)
             \cup Fl("C28.drop_one", Cardinality(gone) = 1 /\ added = {})
             \cup Fl("C11.worst_dropped", WorstDropped(s, gone))
        ELSE Fl("C28.replacement",
                /\ added = Range(s.pend)
                /\ Cardinality(gone) = IF c.drop /\ Len(s.model) > c.incr THEN c.incr ELSE 0)
             \cup Fl("C11.worst_dropped", c.incr # 1 \/ WorstDropped(s, gone)))

StepFit(env, s, ev) ==
  [s EXCEPT !.model = ev.idx, !.vec = ev.new, !.scal = -1, !.d = ev.d,
            !.stage = IF s.stage = "first" THEN "fitted"
                      ELSE IF s.sampled THEN "replace" ELSE "keep",
            !.sampled = FALSE, !.pend = <<>>, !.solved = FALSE]

(***************************************************************************)
(* agg: the vector model is aggregated, solve: the subproblem is solved    *)
(***************************************************************************)
FailedAgg(env, s, ev) == Fl("C21.aggregates_current_model", s.vec = -1 \/ ev.vec = s.vec)
StepAgg(env, s, ev) == IF ev.vec = s.vec THEN [s EXCEPT !.scal = ev.new] ELSE s

FailedSolve(env, s, ev) ==
  Fl("C12.model", s.scal = -1 \/ ev.model = s.scal)
  \cup Fl("C12.region", ev.tr.c = s.tr.c /\ ev.tr.r = s.tr.r)
  \cup Fl("C12.in_region", ev.u <= FP + BAND)
  \cup Fl("C12.expected_improvement", ev.ei \in {0, 1})
  \cup Fl("C12.expected_improvement_value", ev.eiok = 1)
  \cup Fl("C01.feasible_candidate", Feas(env, ev.x))

StepSolve(env, s, ev) ==
  [s EXCEPT !.sol = [x |-> ev.x, rel |-> ev.rel], !.solved = TRUE]

(***************************************************************************)
(* begin, accept: acceptance decision                                      *)
(***************************************************************************)
FailedBegin(env, s, ev) ==
  Fl("C12.candidate_from_last_model", s.solved /\ ev.x = s.sol.x)
  \cup Fl("C28.short_step_not_handled", MustDrop(env, s) # 1 /\ MustReplace(env, s) # 1)

StepBegin(env, s, ev) ==
  [s EXCEPT !.ph = "accept", !.base = Len(s.pts), !.trial = -1, !.evinfo = <<>>, !.spec = -1]

(* the point that is judged: the candidate, or the best point of the batch *)
Judged(env, s) ==
  IF env.cfg.decider = "line" /\ env.cfg.batch > 1
  THEN LET idx == s.base..(Len(s.pts) - 1)
           m == SetMin({MeanNow(env, s, i) : i \in idx})
       IN {i \in idx : MeanNow(env, s, i) = m}
  ELSE {s.trial}

FailedAccept(env, s, ev) ==
  LET c == env.cfg
      js == Judged(env, s)
      curf == IF c.decider = "noisy" THEN MeanNow(env, s, s.cur.i) ELSE s.cur.f
      ok == \E j \in js : Accepts(FinNow(env, s, j), ShiftNow(env, s, j), curf)
      fin == \E j \in js : FinNow(env, s, j)
      line == c.decider = "line" /\ c.batch > 1
  IN
  Fl("C02.evaluated_candidate", s.trial >= 0 /\ NOf(s, s.trial) >= 1)
  \cup Fl("C12.candidate_is_evaluated", XOf(s, s.trial) = s.sol.x)
  \cup Fl("C02.acceptance_rule", (ev.acc = 1) = ok)
  \cup Fl("C16.nonfinite_never_accepted", ev.acc = 0 \/ FinNow(env, s, ev.i))
  \cup (IF ev.acc = 1
        THEN Fl("C02.accepted_point", ev.i \in js /\ ev.x = XOf(s, ev.i))
             \cup Fl("C03.accepted_value", ev.f = MeanNow(env, s, ev.i))
             \cup Fl("C26.best_of_batch", ~line \/ ev.i \in js)
        ELSE Fl("C02.rejected_unchanged",
                ev.i = s.cur.i /\ ev.x = s.cur.x /\ ev.f = s.cur.f))
  \cup Fl("C03.candidate",
          /\ ev.cx = XOf(s, ev.ci)
          /\ IF fin THEN ev.ci \in js ELSE (ev.ci \in js \/ ev.ci = s.cur.i))
  \cup Fl("C03.rho", ev.rho = IF fin THEN ev.rhoExp ELSE ev.neginf)
  \cup Fl("C26.candidate_ratio", ~line \/ ev.rho = IF fin THEN ev.rhoExp ELSE ev.neginf)
  \cup Fl("C16.failed_candidate_is_rejected",
          FinNow(env, s, s.trial) \/ line \/ (ev.acc = 0 /\ ev.rho = ev.neginf))
  \cup Fl("C32.decision",
          c.decider # "noisy"
          \/ ((ev.acc = 1) = ok /\ ev.rho = IF fin THEN ev.rhoExp ELSE ev.neginf))
  \cup Fl("C32.noise_variance", ev.vlink # -1)
  \cup Fl("C03.step_length", ev.step = ev.stepExp)
  \cup Fl("C03.relative_step_length", Abs(ev.relOut - ev.rel) <= BAND)
  \cup Fl("C03.n_evals_acceptance",
          ev.nacc = InfoFun(s.evinfo, s.trial))
  \cup (IF line
        THEN Fl("C26.line_points",
                (ev.border = 1 => ev.nline = Min2(c.batch, 4) - 1)
                /\ (ev.border = -1 => s.spec = c.batch - 1))
             \cup Fl("C26.speculative_points",
                Max2(s.spec, 0) + ev.nline >= c.batch - 1)
        ELSE {})

StepAccept(env, s, ev) ==
  LET c == env.cfg
      large == IF ev.rel >= c.large + BAND THEN {TRUE}
               ELSE IF ev.rel <= c.large - BAND THEN {FALSE} ELSE {TRUE, FALSE}
      radii(more) == {RadiusRule(s.rad.r, s.rad.rs, s.rad.re, ev.rho >= c.rhoinc,
                                 ev.rho >= c.rhodec, l, more, c.rmin,
                                 Min2(c.rmax, ev.cap)) : l \in large}
      rec == [i |-> ev.i, x |-> ev.x, f |-> ev.f, acc |-> ev.acc, rho |-> ev.rho,
              ci |-> ev.ci, cx |-> ev.cx, c |-> s.tr.c, r |-> s.tr.r,
              step |-> ev.step, mi |-> Range(s.model),
              new |-> Range(s.model) \ Range(s.cand),
              used |-> Range(s.model) \cap Range(s.cand),
              disc |-> Range(s.cand) \ Range(s.model),
              nev |-> s.nev, vm |-> s.vec, sm |-> s.scal, rel |-> ev.rel,
              nacc |-> ev.nacc]
  IN [s EXCEPT !.ph = "after", !.iter = @ + 1,
               !.cur = [i |-> ev.i, x |-> ev.x, f |-> ev.f],
               !.acc = (ev.acc = 1), !.t = ev.t,
               !.radii = IF c.noisy THEN radii(FALSE) \cup radii(TRUE) ELSE radii(FALSE),
               !.rad = [s.rad EXCEPT !.r = @] @@
                       [rf |-> radii(FALSE), rt |-> radii(TRUE), good |-> ev.rho >= c.good],
               !.nevs = IF c.noisy
                        THEN {Max2(s.nev - 1, c.nmin), s.nev, Min2(s.nev + 1, c.nmax)}
                        ELSE {s.nev},
               !.recs = Append(@, rec)]

(***************************************************************************)
(* var: the noise variance is estimated                                    *)
(***************************************************************************)
FailedVar(env, s, ev) ==
  Fl("C15.variance_only_if_noisy", env.cfg.noisy)
  \cup Fl("C18.region", ev.tr.c = s.tr.c /\ ev.tr.r = s.tr.r)
  \cup Fl("C18.estimate", ev.ok # -1)    \* 1 yes, -1 no, 0 not decidable
StepVar(env, s, ev) == s

(***************************************************************************)
(* sim: simulated ratios of actual to expected improvement (noisy only)    *)
(***************************************************************************)
FailedSim(env, s, ev) ==
  LET c == env.cfg IN
  Fl("C15.only_if_noisy", c.noisy)
  \cup Fl("C33.noise_covariance", ev.vlink # -1)
  \cup Fl("C33.number_of_draws", ev.n = c.draws)
  \cup Fl("C31.simulation_old_model", s.prevVec = -1 \/ ev.old = s.prevVec)
  \cup Fl("C31.simulated_fits_old_model",
          s.prevVec = -1 \/ \A k \in DOMAIN ev.olds : ev.olds[k] = s.prevVec)
  \cup Fl("C33.true_model", ev.vec = s.vec)
  \cup Fl("C33.simulated_sample",
          \A k \in DOMAIN ev.rows :
             /\ Len(ev.rows[k]) = Len(s.model)
             /\ Range(ev.rows[k]) = {XOf(s, i) : i \in Range(s.model)})
  \cup Fl("C33.simulated_region",
          \A k \in DOMAIN ev.regions : ev.regions[k].c = s.tr.c /\ ev.regions[k].r = s.tr.r)

StepSim(env, s, ev) ==
  LET c == env.cfg
      n2 == NEvalsRule(s.nev, ev.n, ev.hi, ev.lo, s.rad.good,
                       c.hiNum, c.hiDen, c.loNum, c.loDen, c.nmin, c.nmax)
  IN IF s.ph # "after" THEN s
     ELSE [s EXCEPT !.nevs = {n2}, !.simmed = TRUE,
                    !.radii = IF n2 > s.nev THEN s.rad.rt ELSE s.rad.rf]

(***************************************************************************)
(* end: the run returns                                                    *)
(* msg: 0 none, 1..6 convergence tests, 10 evaluations, 11 time, 99 other  *)
(***************************************************************************)
FailedEnd(env, s, ev) ==
  LET c == env.cfg
      n == Len(s.recs)
      st == ev.st
      same(k, fld) == st[k + 1][fld] = s.recs[k][fld]
      all(fld) == Len(st) = n + 1 /\ \A k \in 1..n : same(k, fld)
      setall(fld) == Len(st) = n + 1 /\ \A k \in 1..n :
                        Range(st[k + 1][fld]) = s.recs[k][fld]
  IN
  Fl("C03.number_of_states", Len(st) = n + 1)
  \cup Fl("C03.start_state",
          Len(st) >= 1 /\ st[1].i = 0 /\ st[1].x = env.x0 /\ st[1].f = ev.f0
          /\ ev.f0 = Look(env.mean, 0, IF c.n0 > 1 THEN NextMultiple(c.n0, c.batch) ELSE 1))
  \cup Fl("C03.state_index", all("i") /\ all("ci"))
  \cup Fl("C03.state_x", all("x") /\ all("cx"))
  \cup Fl("C03.state_value", all("f"))
  \cup Fl("C03.state_accepted", all("acc"))
  \cup Fl("C03.state_rho", all("rho"))
  \cup Fl("C03.state_step", all("step"))
  \cup Fl("C03.state_relative_step",
          Len(st) = n + 1 /\ \A k \in 1..n : Abs(st[k + 1].rel - s.recs[k].rel) <= BAND)
  \cup Fl("C03.state_models", all("vm") /\ all("sm"))
  \cup Fl("C03.state_n_evals_acceptance", all("nacc"))
  \cup Fl("C03.state_model_points", setall("mi"))
  \cup Fl("C03.state_point_sets", setall("new") /\ setall("used") /\ setall("disc"))
  \cup Fl("C07.state_region", all("c") /\ all("r"))
  \cup Fl("C15.state_n_evals", ~c.noisy \/ all("nev"))
  \cup Fl("C03.solution_x", ev.x = s.cur.x)
  \cup Fl("C03.solution_value", ev.f = s.cur.f)
  \cup Fl("C01.feasible_solution", Feas(env, ev.x))
  \cup Fl("C04.number_of_evaluations", ev.nfun = s.nfun)
  \cup Fl("C04.stored_values", ev.store = ev.ledger)
  \cup Fl("C27.stored_points", ev.xs = [k \in DOMAIN s.pts |-> s.pts[k].x])
  \cup Fl("C05.reason",
          CASE ev.msg = 0 -> s.iter = c.maxiter
            [] ev.msg = 10 -> s.nfun >= c.maxeval
            [] ev.msg = 11 -> c.tmax >= 0 /\ ev.elapsed >= c.tmax
            [] ev.msg \in 1..6 -> TRUE
            [] OTHER -> FALSE)
  \cup Fl("C05.iteration_limit", s.iter <= c.maxiter)
  \cup Fl("C06.convergence_holds",
          ev.msg \notin 1..6 \/
          (s.iter > 0 /\ s.acc /\ ~c.convdis /\ ev.msg \in DOMAIN s.t /\ s.t[ev.msg] # 1))
  \cup Fl("C06.convergence_reported",
          ev.msg \in 1..6 \/ s.iter = 0 \/ ~s.acc \/ c.convdis \/ ~SomeTestPassed(s.t))

StepEnd(env, s, ev) == [s EXCEPT !.ph = "ended", !.done = TRUE]

(***************************************************************************)
(* crash: the run raised an error                                          *)
(***************************************************************************)
FailedCrash(env, s, ev) == {"ALL.crash"}

Failed(env, s, ev) ==
  CASE ev.e = "add"    -> FailedAdd(env, s, ev)
    [] ev.e = "eval"   -> FailedEval(env, s, ev)
    [] ev.e = "filter" -> FailedFilter(env, s, ev)
    [] ev.e = "sample" -> FailedSample(env, s, ev)
    [] ev.e = "fit"    -> FailedFit(env, s, ev)
    [] ev.e = "agg"    -> FailedAgg(env, s, ev)
    [] ev.e = "solve"  -> FailedSolve(env, s, ev)
    [] ev.e = "begin"  -> FailedBegin(env, s, ev)
    [] ev.e = "accept" -> FailedAccept(env, s, ev)
    [] ev.e = "var"    -> FailedVar(env, s, ev)
    [] ev.e = "sim"    -> FailedSim(env, s, ev)
    [] ev.e = "end"    -> FailedEnd(env, s, ev)
    [] OTHER           -> FailedCrash(env, s, ev)

Step(env, s, ev) ==
  CASE ev.e = "add"    -> StepAdd(env, s, ev)
    [] ev.e = "eval"   -> StepEval(env, s, ev)
    [] ev.e = "filter" -> StepFilter(env, s, ev)
    [] ev.e = "sample" -> StepSample(env, s, ev)
    [] ev.e = "fit"    -> StepFit(env, s, ev)
    [] ev.e = "agg"    -> StepAgg(env, s, ev)
    [] ev.e = "solve"  -> StepSolve(env, s, ev)
    [] ev.e = "begin"  -> StepBegin(env, s, ev)
    [] ev.e = "accept" -> StepAccept(env, s, ev)
    [] ev.e = "var"    -> StepVar(env, s, ev)
    [] ev.e = "sim"    -> StepSim(env, s, ev)
    [] ev.e = "end"    -> StepEnd(env, s, ev)
    [] OTHER           -> [s EXCEPT !.ph = "ended", !.done = TRUE]

(***************************************************************************)
(* Global guarantees.  They refer to whole histories, not to single steps. *)
(* Broken(env, s) is the set of names of guarantees broken in state s.     *)
(***************************************************************************)
Broken(env, s) ==
  LET c == env.cfg
      n == Len(s.recs)
      prev(k) == IF k = 1 THEN [i |-> 0, x |-> env.x0, f |-> -1] ELSE s.recs[k - 1]
  IN
  Fl("C02.monotone",
     c.noisy \/ c.minimp < 0 \/
     \A k \in 2..n : s.recs[k].f <= s.recs[k - 1].f)
  \cup Fl("C02.not_worse_than_start",
     c.noisy \/ c.minimp < 0 \/ s.ph \in {"start"} \/ s.cur.f <= Look(env.mean, 0, 1) \/ c.n0 > 1)
  \cup Fl("C03.current_was_evaluated",
     s.ph = "start" \/ (Known(s, s.cur.i) /\ NOf(s, s.cur.i) >= 1 /\ XOf(s, s.cur.i) = s.cur.x))
  \cup Fl("C03.current_value_is_a_mean",
     s.ph = "start" \/
     \E k \in 1..Max2(NOf(s, s.cur.i), 0) : Look(env.mean, s.cur.i, k) = s.cur.f)
  \cup Fl("C16.current_is_finite",
     s.ph = "start" \/ \E k \in 1..Max2(NOf(s, s.cur.i), 0) :
        Look(env.mean, s.cur.i, k) = s.cur.f /\ Look(env.fin, s.cur.i, k) = 1)
  \cup Fl("C01.history_feasible",
     \A k \in DOMAIN s.pts : s.pts[k].n = 0 \/ Feas(env, s.pts[k].x))
  \cup Fl("C04.count", s.nfun = SumSeq([k \in DOMAIN s.pts |-> s.pts[k].n]))
  \cup Fl("C05.iterations", s.iter <= c.maxiter /\ n = s.iter)
  \cup Fl("C07.limits",
     \A k \in 2..n : s.recs[k].r >= c.rmin /\ s.recs[k].r <= Max2(c.rmin, c.rmax))
  \cup Fl("C07.centred",
     \A k \in 1..n : s.recs[k].c = prev(k).x)
  \cup Fl("C15.limits",
     \A k \in 1..n : IF c.noisy
                     THEN s.recs[k].nev \in {c.nev0} \cup
                            (Min2(c.nmin, c.nev0)..Max2(c.nmax, c.nev0))
                     ELSE s.recs[k].nev = c.nev0)
==============================================================================
