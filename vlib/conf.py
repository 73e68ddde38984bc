"""Conformance machinery: run a driver on a script, validate its trace against a trace spec."""
import json, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from . import tlc
VERIF = tlc.VERIF
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

def split_episodes(lines):
    eps = []
    for ln in lines:
        if ln.startswith("ep ") or not eps:
            eps.append([])
        eps[-1].append(ln)
    return eps

def run_driver(exe, script_lines, workdir, name, secs=20, env=None, timeout=900):
    sp = os.path.join(workdir, name + ".script"); lp = os.path.join(workdir, name + ".ndjson")
    with open(sp, "w") as f:
        f.write("\n".join(script_lines) + "\n")
    if os.path.exists(lp):
        os.unlink(lp)
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:symbolize=0"
    if env:
        e.update(env)
    with open(os.path.join(workdir, name + ".stderr"), "wb") as er:
        p = subprocess.run([exe, sp, lp, str(secs)], stdout=er, stderr=er, env=e, timeout=timeout)
    if p.returncode != 0 or not os.path.exists(lp):
        raise tlc.ToolError(f"driver {exe} failed ({p.returncode}) on {sp}")
    return lp

def count_lines(p):
    with open(p, "rb") as f:
        return sum(1 for _ in f)

def validate(module, trace, workdir, name, cfg_extra="", timeout=600, heap="3g", env=None, invariants=""):
    """Returns (accepted, matched, total, out)."""
    with open(os.path.join(tlc.SPEC, module + ".tla")) as f:      # modules that extend another trace module name theirs TSpec
        spec = "TSpec" if "\nTSpec ==" in f.read() else "Spec"
    cfg = f"SPECIFICATION {spec}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + cfg_extra
    if invariants:
        cfg += "\nINVARIANTS " + invariants + "\n"
    wd = os.path.join(workdir, "tlc_" + name)
    e = {"TRACE": trace}
    if env: e.update(env)
    r = tlc.run(module, cfg, wd, workers=1, timeout=timeout, heap=heap, env=e)
    total = count_lines(trace)
    m = tlc.strings(r.out, "MATCHED")
    if r.timeout:
        raise tlc.ToolError(f"TLC timed out validating {trace}")
    if "Parsing or semantic analysis failed" in r.out or "Unknown operator" in r.out or "java.lang.OutOfMemory" in r.out:
        raise tlc.ToolError("specification does not load / memory:\n" + r.out[-3000:])
    if not m:
        # an evaluation error inside the specification while consuming an event: the logged value is
        # outside everything the specification can interpret (e.g. an index out of range).
        r.evalerror = True
        return False, -1, total, r.out
    matched = int(m[-1])
    return ("Model checking completed. No error" in r.out and matched == total), matched, total, r.out

class Rejection:
    def __init__(self, trace, lineno, event, episode_script, out):
        self.trace, self.lineno, self.event, self.script, self.out = trace, lineno, event, episode_script, out

def find_eval_error_line(trace, out):
    """On an evaluation error TLC prints the behaviour up to the offending state: l is in it."""
    import re
    m = re.findall(r"/\\ l = (\d+)", out) or re.findall(r"\bl = (\d+)", out)
    return int(m[-1]) if m else None

def conform(exe, module, script_lines, workdir, tag, secs=20, jobs=None, timeout=600, cfg_extra="", env=None, denv=None, heap="3g"):
    """Split the script by episode over jobs, run driver and TLC on each part.
    Returns (list of Rejection, n_events, n_states)."""
    jobs = jobs or NPROC
    eps = split_episodes(script_lines)
    parts = [[] for _ in range(min(jobs, max(1, len(eps))))]
    # greedy balance by script length
    load = [0] * len(parts)
    for ep in sorted(eps, key=lambda e: -sum(len(x) for x in e)):
        i = load.index(min(load)); parts[i].append(ep); load[i] += sum(len(x) for x in ep) + 50
    def one(i):
        lines = [ln for ep in parts[i] for ln in ep]
        nm = f"{tag}{i}"
        lp = run_driver(exe, lines, workdir, nm, secs=secs, env=denv)
        ok, matched, total, out = validate(module, lp, workdir, nm, cfg_extra, timeout=timeout, env=env, heap=heap)
        rej = None
        if not ok:
            if matched < 0:
                ln = find_eval_error_line(lp, out)
                matched = (ln - 1) if ln else 0
            with open(lp) as f:
                evs = f.readlines()
            ev = evs[matched] if matched < len(evs) else "(end)"
            # which episode
            epno = -1
            for k in range(min(matched, len(evs) - 1) + 1):
                if '"op":"reset"' in evs[k]: epno += 1
            script = parts[i][epno] if 0 <= epno < len(parts[i]) else lines
            rej = Rejection(lp, matched + 1, ev, script, out)
        return rej, total
    rejs, events = [], 0
    with ThreadPoolExecutor(len(parts)) as ex:
        for rej, total in ex.map(one, range(len(parts))):
            events += total
            if rej: rejs.append(rej)
    return rejs, events
