"""What the check of each property runs."""
from vh import cases, cases_custom, cases_fig, cases_hist, cases_num, cases_opts, cases_samp, cases_sub, cases_twin, cases_wrap, scen
from vh.cases import generated, randomly
from vh.env import SEED, THOROUGH
from vh.main import core, model

ASSUME_CORE = [
    "components are observed through the callables that process_arguments returns",
    "floating point numbers are compared as ranks after identifying results that agree with "
    "the value implied by the recorded evaluations up to 1e-10",
    "start vectors are finite and feasible, the evaluation at the start succeeds",
]


def _core(families):
    def run(r):
        scs = []
        for f in families:
            scs += f()
        core(r, scs)

    return run


def mc(*scopes):
    """Exhaustive exploration of the design in the given scopes."""
    def run(r):
        for sc in scopes:
            model(r, "MCTranquilo", name=f"MCTranquilo:{sc}",
                  env={"VH_SCOPE": sc, "VH_DEEP": "1" if THOROUGH else "0",
                       "VH_IGNORE": "none", "VH_IGNORE2": "none"}, heap="8g")
    return run


# clauses that are left out, the scope, and the guarantee that must then break
VACUITY = {
    "C01": [("classic", "C01.feasible_candidate", "C01.feasible_evaluation"),
            ("classic", "C01.feasible_sample", "C01.feasible_evaluation")],
    "C02": [("classic", "C02.acceptance_rule", "none"), ("classic", "C02.rejected_unchanged", "none")],
    "C03": [("classic", "C03.accepted_value", "none")],
    "C04": [("classic", "C04.arguments", "none")],
    "C05": [("limits", "C05.iteration_limit", "none")],
    "C07": [("classic", "C07.centre", "none"), ("classic", "C07.radius", "C07.radius_limits")],
    "C16": [("classic", "C02.acceptance_rule", "C16.nonfinite_never_accepted")],
}


def vacuity(prop):
    """Thorough: without the clauses the exploration finds a broken guarantee."""
    def run(r):
        for sc, a, b in VACUITY.get(prop, []) if THOROUGH else []:
            model(r, "MCTranquilo", name=f"MCTranquilo:{sc} without {a} {b}", broken=True,
                  env={"VH_SCOPE": sc, "VH_DEEP": "0", "VH_IGNORE": a, "VH_IGNORE2": b})
    return run


def rnd(quick=500, thorough=6000, **kw):
    return lambda: scen.random_family(thorough if THOROUGH else quick, SEED, **kw)


def lines(quick=400, thorough=3000):
    return lambda: scen.line_family(thorough if THOROUGH else quick, SEED)


def reuse(quick=80, thorough=1200):
    return lambda: scen.reuse_family(thorough if THOROUGH else quick)


def tolerances(quick=500, thorough=5000):
    return lambda: scen.tolerance_family(thorough if THOROUGH else quick, SEED)


CHECKS = {}


NOT_APPLICABLE = {}

TECH_CORE = ("TLA+ specification of the main loop checked by TLC; trace validation of recorded "
             "runs against it")
NOTE_CORE = ("Every recorded run is a behaviour of the TLA+ specification and satisfies its "
             "invariants in every state; the runs cover the option space by a fixed and a seeded "
             "random part. Trusts TLC, the recorder and the rank encoding of numbers.")


def claim(prop, families, level="model_checking", assumptions=ASSUME_CORE, extra=(),
          technique=TECH_CORE, note=NOTE_CORE):
    base_run = _core(families) if families else (lambda r: None)

    def run(r):
        base_run(r)
        for e in (*extra, vacuity(prop)):
            e(r)

    CHECKS[prop] = {"run": run, "level": level, "assumptions": list(assumptions),
                    "technique": technique, "note": note}



ASSUME_CASE = [
    "component inputs are drawn from the enumerated or seeded random families of the specification",
    "floating point results are compared with the exact values of the specification up to the "
    "tolerance stated there",
]
TECH_CASE = ("TLA+ specification of the component checked by TLC against calls of the real code; "
             "inputs enumerated by TLC from the specification or drawn at random")
NOTE_CASE = ("Each recorded call of the real component is judged by TLC with the relation the "
             "specification states between its inputs and outputs. Trusts TLC, the input families "
             "and the recorder.")


def comp(prop, *extra, families=(), **kw):
    kw = {"assumptions": ASSUME_CASE, "technique": TECH_CASE, "note": NOTE_CASE, **kw}
    claim(prop, families, extra=extra, **kw)


WRAPPED = randomly(cases_wrap.rnd_wrapped, 1200, 15000)

claim("C01", [scen.base, rnd()], extra=[mc("classic", "limits")])
claim("C02", [scen.base, scen.script_family, rnd(300)], extra=[mc("classic", "long")])
claim("C03", [scen.base, scen.script_family, rnd(300)], extra=[mc("classic", "stagnation")])
claim("C04", [scen.base, scen.noisy_family, rnd(300)], extra=[WRAPPED, mc("classic")])
claim("C05", [scen.base, lambda: scen.waiting_family(160 if THOROUGH else 32), rnd()], extra=[mc("limits")])
claim("C06", [scen.base, rnd(300), tolerances()], extra=[mc("limits")])
claim("C07", [scen.base, scen.script_family, rnd(200)], extra=[generated("radius"), mc("radius")])
claim("C08", [scen.base, rnd()], extra=[mc("points")])
claim("C09", [scen.base, scen.noisy_family, reuse(), rnd()], extra=[mc("stagnation")])
claim("C15", [scen.noisy_family, reuse(), rnd(300)], extra=[generated("nevals"), mc("noisy")])
claim("C16", [scen.fault_family, scen.noisy_fault_family, scen.script_family, rnd(100)],
      extra=[WRAPPED, mc("classic")])
claim("C25", [scen.base, rnd(400)], extra=[WRAPPED, mc("line")])
claim("C26", [scen.base, scen.script_family, lines()], extra=[mc("line")])
claim("C28", [scen.base, rnd()], extra=[mc("stagnation")])
claim("C31", [scen.base, scen.noisy_family, scen.resid_family, rnd(300)],
      extra=[randomly(cases_num.rnd_fit, 300, 3000)])
claim("C32", [scen.noisy_family, rnd()],
      extra=[randomly(cases_samp.rnd_sizes, 1500, 20000), mc("noisy")])

comp("C11", generated("drop", "filter"), randomly(cases.rnd_cloud, 1500, 20000))
comp("C12", randomly(cases_sub.rnd_step, 1500, 20000), randomly(cases_sub.rnd_builtin, 1000, 10000))
comp("C13", randomly(cases_sub.rnd_solver, 1500, 15000), randomly(cases_sub.rnd_inner, 900, 9000),
     randomly(cases_sub.rnd_linear, 400, 4000))
comp("C17", generated("inf"), randomly(cases.rnd_inf, 1500, 20000))
comp("C18", randomly(cases_num.rnd_variance, 1500, 15000))
comp("C19", randomly(cases_num.rnd_region, 1500, 20000))
comp("C20", randomly(cases_num.rnd_fit, 1200, 15000))
comp("C21", randomly(cases_num.rnd_model_case, 1500, 20000))
comp("C22", generated("cluster", "clusterfilter"),
     randomly(lambda r, k: cases.rnd_cloud(r, k, "cluster"), 1500, 20000))
comp("C23", generated("component", "bundle"), cases_custom.run_custom)
comp("C24", randomly(cases_opts.rnd_args, 1500, 15000), cases_opts.run_bad)
comp("C27", generated("history", "grow"), randomly(cases_hist.rnd_history, 1000, 15000))
comp("C14", randomly(cases_twin.rnd_twin, 450, 6000), cases_twin.run_processes,
     assumptions=["the criterion is deterministic or its noise is a function of the point and the "
                  "number of the evaluation there", "both runs use the same linear algebra library"],
     technique="TLA+ relation between two runs (self-composition) checked by TLC on recorded pairs "
               "of runs in disturbed environments")
comp("C10", randomly(cases_samp.rnd_sample, 1500, 15000))
comp("C29", randomly(cases_samp.rnd_explore, 1500, 15000))
comp("C30", randomly(cases_samp.rnd_poised, 200, 2500))
comp("C33", randomly(cases_samp.rnd_rho, 600, 8000))
comp("C34", cases_num.run_volume)
comp("C35", randomly(cases_fig.rnd_figure, 150, 1500))
