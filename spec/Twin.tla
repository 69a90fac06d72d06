-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Two runs with the same arguments and seed, the second one in another    *)
(* environment (other runs before it, another global random state, another *)
(* order or number of workers of the evaluator, another process).  A run   *)
(* is seen as                                                              *)
(*   batches  the vectors of each call of the evaluator, in order          *)
(*   nw       the number of workers asked for                              *)
(*   hist     the stored points, vals their stored evaluations             *)
(*   states   one sequence of codes per state,  res  solution and message  *)
(*   rng      1 if the global random state was left alone                  *)
(*   pure     1 if the caller's arguments are as they were                 *)
(*   err      0, or the code of the error                                  *)
(* Equal objects have equal codes.  0 stands for "not observed".           *)
(***************************************************************************)
EXTENDS Filters

SameIfSeen(a, b) == a = <<>> \/ b = <<>> \/ a = b

FailedTwin(c) ==
  LET a == c.out.a  b == c.out.b IN
  FlF("C14.same_evaluations", SameIfSeen(a.batches, b.batches))
  \cup FlF("C14.same_history", a.hist = b.hist)
  \cup FlF("C14.same_stored_values", a.vals = b.vals)
  \cup FlF("C14.same_states", a.states = b.states)
  \cup FlF("C14.same_result", a.res = b.res /\ a.err = b.err)
  \cup FlF("C14.same_random_generators", a.gen = b.gen)
  \cup FlF("C14.global_random_state_untouched", a.rng = 1 /\ b.rng = 1)
  \cup FlF("C14.arguments_unchanged", a.pure = 1 /\ b.pure = 1)
  \cup FlF("C14.workers_do_not_matter",
           c.dis # "cores" \/ SameIfSeen(a.batches, b.batches))
==============================================================================
