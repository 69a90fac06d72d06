"""Runs the check of one property:  python -m vh.main <ID>  (see check.sh)."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from vh.env import ROOT, SEED, THOROUGH, TIER, import_tranquilo
from vh import tlc

JOBS = min(8, os.cpu_count() or 1)
OUT = ROOT / "out"
LIMIT_RUN = 90  # seconds for one run of the optimizer


class Hang(BaseException):
    pass


_hangs = mp.get_context("fork").Value("i", 0)


def _alarm(signum, frame):
    raise Hang("no result within the time limit")


def _one(args):
    import signal

    fn, item = args
    # code that never returns would use up the time of the check: after a few such items
    # the limit for the others is lower, and in the end they are left out
    if _hangs.value >= 16:
        return {"harness": "Skipped: too many items did not finish"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT_RUN if _hangs.value < 4 else LIMIT_RUN // 6)
    try:
        return fn(item)
    except Hang as e:
        with _hangs.get_lock():
            _hangs.value += 1
        return {"harness": f"Hang: {e}"}
    except BaseException:  # noqa: BLE001
        return {"harness": traceback.format_exc()[-2000:]}
    finally:
        signal.alarm(0)


def raised_by_code(text):
    """Was the error raised by the code under test (or something it called)?"""
    files = [line for line in text.splitlines() if line.strip().startswith("File ")
             and ("/vh/" in line or "/src/tranquilo/" in line)]
    return bool(files) and "/vh/" not in files[-1]


def pmap(fn, items):
    """Map in forked workers; a result {"harness": text} is a failure of the harness."""
    items = list(items)
    if not items:
        return []
    n = min(JOBS, len(items))
    with mp.get_context("fork").Pool(n, maxtasksperchild=200) as pool:
        return pool.map(_one, [(fn, i) for i in items], chunksize=max(1, len(items) // (n * 8)))


class Findings:
    """Known findings: lines "known: property=<id> case=<key> <text>"."""

    def __init__(self, prop):
        self.known = {}
        f = ROOT / "findings" / "known_findings.txt"
        for line in f.read_text().splitlines() if f.exists() else []:
            if line.startswith("known:"):
                parts = line[len("known:"):].strip().split(" ", 2)
                p, key = parts[0].split("=", 1)[1], parts[1].split("=", 1)[1]
                if p == prop:
                    self.known[key] = parts[2] if len(parts) > 2 else ""
        self.seen = set()

    def matches(self, name):
        if name in self.known:
            self.seen.add(name)
            return True
        return False


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.findings = Findings(prop)
        self.violations = []
        self.states = self.transitions = 0
        self.validated = 0
        self.mc_states = 0
        self.samples = []
        self.cov = {}
        self.notes = []
        self.errors = []
        self.seen_hash = set()
        self.dup = 0

    # ------------------------------------------------------------- results
    def mine(self, clause):
        p = clause.split(".", 1)[0]
        return p == self.prop or p == "ALL"

    def violate(self, name, what, data):
        if self.findings.matches(name):
            return
        self.violations.append((name, what, data))

    def absorb(self, module, entries):
        """entries: list of (name, trace, replay data).  Validate and collect."""
        fresh = []
        for name, tr, data in entries:
            key = dict(tr)
            key.pop("name", None)
            h = hashlib.sha1(json.dumps(key, sort_keys=True).encode()).hexdigest()
            if h in self.seen_hash:
                self.dup += 1
            else:
                self.seen_hash.add(h)
                fresh.append((name, tr, data))
        if not fresh:
            return
        n_chunks = max(1, min(4, len(fresh) // 150))
        chunks = [fresh[i::n_chunks] for i in range(n_chunks)]
        with ThreadPoolExecutor(n_chunks) as ex:
            res = list(ex.map(
                lambda c: tlc.validate(module, [t for _, t, _ in c],
                                       workers=max(2, JOBS // n_chunks)), chunks))
        by_clause = {}
        for chunk, (out, stats) in zip(chunks, res):
            self.states += stats["states"]
            self.transitions += stats["transitions"]
            for (name, tr, data), o in zip(chunk, out):
                if "undecided" in o:
                    self.count("traces_left_undecided_after_counterexamples")
                    continue
                self.validated += 1
                if "error" in o:
                    self.violate(name, "the trace is not a behaviour the specification can "
                                 "interpret", {"trace": tr, "tlc": o["error"][-1500:], "data": data})
                    continue
                hit = [(c, at) for c, at in o["viol"] if self.mine(c)
                       and not self.findings.matches(f"clause:{c}")]
                for c, _ in o["viol"]:
                    by_clause[c] = by_clause.get(c, 0) + 1
                if hit:
                    self.violate(name, f"broken clauses {sorted({c for c, _ in hit})}",
                                 {"clauses": hit, "all": o["viol"], "trace": tr, "data": data})
                elif len(self.samples) < 3:
                    self.samples.append(_sample(name, tr, o))
        if by_clause:
            self.cov.setdefault("clauses_broken_of_any_property", {}).update(by_clause)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    # --------------------------------------------------------------- output
    def finish(self, level, assumptions):
        wall = time.time() - self.t0
        cov = {
            "states": self.states + self.mc_states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or ["none"],
            **self.cov, "duplicate_traces_skipped": self.dup, "notes": self.notes[:10],
        }
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level,
              "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        d = ROOT / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for name in sorted(self.findings.seen):
            print(f"KNOWN-FINDING: property={self.prop} {name} {self.findings.known[name]}")
        if self.errors:
            for e in self.errors[:5]:
                print("HARNESS:", e[-1500:], file=sys.stderr)
        if self.violations:
            rd = OUT / "replay"
            rd.mkdir(parents=True, exist_ok=True)
            for k, (name, what, data) in enumerate(self.violations[:5]):
                p = rd / f"{self.prop}-{k}.json"
                p.write_text(json.dumps({"property": self.prop, "case": name, "what": what,
                                         **data}, default=str))
                print(f"VIOLATION property={self.prop} replay={p}")
                print(f"  {name}: {what}")
            if len(self.violations) > 5:
                print(f"  ... {len(self.violations)} violations in total")
            return 1
        if self.errors:
            return 3
        print(f"property {self.prop} held: {self.validated} traces validated, "
              f"{self.states + self.mc_states} states, {wall:.1f} s")
        return 0


def _sample(name, tr, o):
    ev = tr.get("ev")
    if ev is None:
        return {"case": name, "input": tr}
    kinds = {}
    for e in ev:
        kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    return {"run": name, "events": kinds, "iterations": o["iters"],
            "first_events": ev[:3], "last_event_message": ev[-1].get("msg")}


# ----------------------------------------------------------------------- core
def core(run, scenarios):
    from vh import scen

    res = pmap(scen.execute, scenarios)
    entries = []
    for s, r in zip(scenarios, res):
        if isinstance(r, dict):
            if r["harness"].startswith("Hang"):
                run.violate(s["name"], r["harness"], {"scenario": s})
            elif raised_by_code(r["harness"]):
                run.violate(s["name"], "the run did not start", {"scenario": s,
                                                                 "error": r["harness"]})
            else:
                run.errors.append(f"{s['name']}: {r['harness']}")
            continue
        tr, info = r
        if info["crash"]:
            run.count("runs_that_crashed")
        run.count("runs")
        run.count("iterations", info["n_iter"] or 0)
        run.count("steps_accepted", info["accepted"])
        run.count("steps_rejected", info["rejected"])
        for k, v in info["kinds"].items():
            run.count(f"evaluations_{k}", v)
        for e in tr["ev"]:
            run.count(f"events_{e['e']}")
        m = run.cov.setdefault("messages", {})
        m[str(info["message"])] = m.get(str(info["message"]), 0) + 1
        entries.append((s["name"], tr, {"scenario": s, "crash": info["crash"]}))
    run.absorb("TraceTranquilo", entries)


def model(run, module, cfg=None, name=None, broken=False, **kw):
    """Exhaustive check of a model; with broken it must violate an invariant."""
    rc, out, stats = tlc.run_tlc(module, cfg=cfg, workers=JOBS, **kw)
    want = "is violated" if broken else "No error has been found"
    if want not in out:
        raise tlc.TlcError(f"{name or module}: {out[-3000:]}")
    run.mc_states += stats.get("states", 0)
    run.transitions += stats.get("transitions", 0)
    run.cov.setdefault("models", {})[name or cfg or module] = stats


def main():
    prop = sys.argv[1]
    if prop == "--replay":
        return replay(sys.argv[2])
    from vh import checks

    import_tranquilo()
    run = Run(prop)
    c = checks.CHECKS[prop]
    try:
        c["run"](run)
    except tlc.TlcError as e:
        run.errors.append(str(e))
    return run.finish(c["level"], c["assumptions"])


def replay(path):
    """Validate the trace stored in a replay file again."""
    d = json.loads(open(path).read())
    if "trace" in d:
        module = "TraceTranquilo" if "ev" in d["trace"] else "TraceCases"
        print(tlc.validate(module, [d["trace"]])[0])
    if d.get("data", {}).get("scenario"):
        from vh import scen

        import_tranquilo()
        tr, info = scen.execute(d["data"]["scenario"])
        print("run again:", info, tlc.validate("TraceTranquilo", [tr])[0])
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    sys.exit(rc)
