------------------------------- MODULE Custom -------------------------------
(***************************************************************************)
(* User supplied components in a run.  A component is a function with a    *)
(* declared signature.  c.slot names the component, c.opts the options it  *)
(* declares, c.user the options the user sets (sequence of [name, v], in   *)
(* thousandths), c.args the runtime arguments it declares.  Of the calls   *)
(* is observed: n (number), args (1 if every declared runtime argument is  *)
(* the documented object in every call), got (values of the options in     *)
(* every call), used (1 if the result is what the run continued with).     *)
(***************************************************************************)
EXTENDS Filters

CustomDefaults(slot) ==
  CASE slot = "sampler" -> [hardness |-> 1000, n_points_randomsearch |-> 1000]
    [] slot = "sample_filter" -> [strictness |-> 0, n_max_factor |-> 3000]
    [] slot = "model_fitter" -> [l2_penalty_linear |-> 0, l2_penalty_square |-> 100,
                                 p_intercept |-> 50, p_linear |-> 400, p_square |-> 1000]
    [] slot \in {"sphere_subsolver", "cube_subsolver"} ->
         [maxiter |-> 20000, maxiter_gradient_descent |-> 5000, k_easy |-> 100, k_hard |-> 200,
          gtol_scaled |-> 0]
    [] slot = "acceptance_decider" ->
         [confidence_level |-> 950, power_level |-> 950, n_initial |-> 5000, n_min |-> 4000,
          n_max |-> 50000, min_improvement |-> 0, speculative_sampling_radius_factor |-> 750]
    [] slot = "variance_estimator" -> [max_distance_factor |-> 3000, min_n_evals |-> 3000]
    [] OTHER -> [none |-> 0]
CustomInt == {"n_points_randomsearch", "n_max_factor", "maxiter", "maxiter_gradient_descent",
              "n_initial", "n_min", "n_max", "min_n_evals"}
CustomValue(c, n) ==
  LET k == {k \in DOMAIN c.user : c.user[k].name = n} IN
  IF k = {} THEN CustomDefaults(c.slot)[n]
  ELSE LET v == c.user[CHOOSE i \in k : TRUE].v IN
       IF n \in CustomInt THEN (v \div 1000) * 1000 ELSE v

FailedCustom(c) ==
  LET o == c.out IN
  FlF("C23.component_is_called", o.n >= 1)
  \cup FlF("C23.component_runtime_arguments", o.args = 1)
  \cup FlF("C23.component_options",
           \A k \in DOMAIN o.got :
              /\ DOMAIN o.got[k] = DOMAIN c.opts
              /\ \A j \in DOMAIN c.opts : o.got[k][j] = CustomValue(c, c.opts[j]))
  \cup FlF("C23.component_result_is_used", o.used = 1)
  \cup FlF("C23.inputs_unchanged", o.pure = 1)
==============================================================================
