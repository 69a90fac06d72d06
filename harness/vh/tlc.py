"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

from vh.env import SPEC

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def scratch():
    base = os.environ.get("VH_TMP") or tempfile.gettempdir()
    return Path(tempfile.mkdtemp(prefix="vh_", dir=base))


def run_tlc(module, cfg=None, env=None, workers=4, heap="3g", timeout=800, extra=()):
    """Run TLC and return its output and the statistics."""
    tmp = scratch()
    try:
        cmd = [
            "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
            f"-XX:ParallelGCThreads={min(workers, 4)}", f"-Djava.io.tmpdir={tmp}",
            "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", str(tmp / "m"),
            "-noGenerateSpecTE", "-config", str(cfg or f"{module}.cfg"), *extra,
            f"{module}.tla",
        ]
        e = {k: v for k, v in os.environ.items() if k != "JAVA_TOOL_OPTIONS"}
        e.update({k: str(v) for k, v in (env or {}).items()})
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True,
                           timeout=timeout)
        out = p.stdout + p.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"transitions": int(m[1]), "states": int(m[2])} if m else {}
    return p.returncode, out, stats


_VERDICT = re.compile(r'^"?VERDICT (\d+) (\d+) (\d+) (.*?)"?$', re.M)


def unescape(text):
    return text.replace('\\"', '"')


def validate(module, traces, chunk=None, workers=4, timeout=800):
    """Validate traces (list of dicts) with a trace module.

    Returns a list with one entry per trace: dict(viol=[(clause, at)], steps, iters) or
    dict(error=text), and statistics.
    """
    out = [None] * len(traces)
    total = {"states": 0, "transitions": 0}
    todo = [list(range(len(traces)))]
    bad = 0
    while todo:
        if bad >= 3:  # enough counterexamples: leave the rest undecided
            for ids in todo:
                for i in ids:
                    out[i] = out[i] or {"undecided": True}
            break
        ids = todo.pop()
        if not ids:
            continue
        tmp = scratch()
        try:
            f = tmp / "traces.json"
            f.write_text(json.dumps([traces[i] for i in ids]))
            rc, text, stats = run_tlc(module, env={"VH_TRACES": f}, workers=workers,
                                      timeout=timeout)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for k in total:
            total[k] += stats.get(k, 0)
        for m in _VERDICT.finditer(text):
            viol = json.loads(unescape(m[4]))
            out[ids[int(m[1]) - 1]] = {
                "viol": sorted((v["clause"], v["at"]) for v in viol),
                "steps": int(m[2]), "iters": int(m[3]),
            }
        missing = [i for i in ids if out[i] is None]
        if missing:
            if len(ids) == 1:
                out[ids[0]] = {"error": text[-3000:]}
                bad += 1
            elif len(missing) == len(ids) and "Error: Parsing" in text:
                raise TlcError(text[-3000:])
            else:
                # a malformed trace stops TLC: isolate it
                if len(missing) == 1:
                    todo.append(missing)
                else:
                    h = (len(missing) + 1) // 2
                    todo += [missing[:h], missing[h:]]
    return out, total
