----------------------------- MODULE TraceCases -----------------------------
(***************************************************************************)
(* Judges recorded calls of single components.  Every case is a record     *)
(* with the kind, the inputs and the observed output.                      *)
(***************************************************************************)
EXTENDS Sampling, Subproblem, Wrapped, Twin, Custom, Options, Figures, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VH_TRACES)

Crash(c, p) == IF "err" \in DOMAIN c.out THEN {p \o ".crash"} ELSE {}
Or(c, p, f) == IF "err" \in DOMAIN c.out THEN {p \o ".crash"} ELSE f

FailedCase(c) ==
  CASE c.kind = "drop"     -> Or(c, "C11", FailedDrop(c))
    [] c.kind = "filter"   -> Or(c, "C11", FailedFilterCase(c))
    [] c.kind = "cluster"  -> Or(c, "C22", FailedCluster(c))
    [] c.kind = "clusterfilter" -> Or(c, "C22", FailedClusterFilter(c))
    [] c.kind = "radius"   -> Or(c, "C07", FailedRadius(c))
    [] c.kind = "nevals"   -> Or(c, "C15", FailedNEvals(c))
    [] c.kind = "inf"      -> Or(c, "C17", FailedInf(c))
    [] c.kind = "move"     -> Or(c, "C21", FailedMove(c))
    [] c.kind = "addmodels" -> FailedAddModels(c)
    [] c.kind = "aggregate" -> Or(c, "C21", FailedAggregate(c))
    [] c.kind = "fit"      -> Or(c, IF c.resid = 1 THEN "C31" ELSE "C20", FailedFitCase(c))
    [] c.kind = "region"   -> Or(c, "C19", FailedRegion(c))
    [] c.kind = "volume"   -> Or(c, "C34", FailedVolume(c))
    [] c.kind = "variance" -> Or(c, "C18", FailedVariance(c))
    [] c.kind = "history"  -> Or(c, "C27", FailedHistory(c))
    [] c.kind = "wrapped"  -> FailedWrapped(c)
    [] c.kind = "twin"     -> Or(c, "C14", FailedTwin(c))
    [] c.kind = "custom"   -> Or(c, "C23", FailedCustom(c))
    [] c.kind = "component" -> Or(c, "C23", FailedComponent(c))
    [] c.kind = "bundle"   -> Or(c, "C23", FailedBundle(c))
    [] c.kind = "args"     -> Or(c, "C24", FailedArgs(c))
    [] c.kind = "step"     -> FailedStep(c)
    [] c.kind = "builtin"  -> Or(c, "C12", FailedBuiltin(c))
    [] c.kind = "solver"   -> Or(c, "C13", FailedSolver(c))
    [] c.kind = "inner"    -> Or(c, "C13", FailedInner(c))
    [] c.kind = "linear"   -> Or(c, "C13", FailedLinear(c))
    [] c.kind = "sample"   -> FailedSample(c)
    [] c.kind = "explore"  -> FailedExplore(c)
    [] c.kind = "poised"   -> FailedPoised(c)
    [] c.kind = "sizes"    -> Or(c, "C32", FailedSizes(c))
    [] c.kind = "rhonoise" -> FailedRho(c)
    [] c.kind = "figure"   -> Or(c, "C35", FailedFigure(c))
    [] OTHER -> {"ALL.unknown_case"}

VARIABLES tid, done

Init == tid \in DOMAIN Cases /\ done = FALSE
Next ==
  /\ ~done
  /\ done' = TRUE
  /\ LET v == {[clause |-> x, at |-> 1] : x \in FailedCase(Cases[tid])}
     IN PrintT("VERDICT " \o ToString(tid) \o " 1 0 " \o ToJson(v))
  /\ UNCHANGED tid
vars == <<tid, done>>
Spec == Init /\ [][Next]_vars
==============================================================================
