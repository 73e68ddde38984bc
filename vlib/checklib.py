"""What every check shares: tiers, seeds, model runs, conformance runs, evidence, verdicts."""
import json, os, random, re, shutil, sys, time, traceback
from . import build, tlc, conf
VERIF = tlc.VERIF

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{pid}:{seed}")
        self.workdir = os.path.join(VERIF, "build", "work", f"{pid}.{os.getpid()}")
        shutil.rmtree(self.workdir, ignore_errors=True)
        os.makedirs(self.workdir)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, episodes=0, models=[], parts=[])
        self.violations = []      # replay paths
        self.samples = []
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hits = []

    # ---- models -------------------------------------------------------------------------
    def model(self, module, constants="", invariants="", spec="Spec", extra=(), workers=8, timeout=600,
              properties="", prefix=None, simulate=None, depth=None, heap="6g", constraint=""):
        """Model-check (or simulate) a specification. A failing model is an error of the check, never a violation."""
        cfg = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n"
        if constants: cfg += "CONSTANTS " + constants + "\n"
        if invariants: cfg += "INVARIANTS " + invariants + "\n"
        if properties: cfg += "PROPERTIES " + properties + "\n"
        if constraint: cfg += "CONSTRAINT " + constraint + "\n"
        ex = list(extra)
        if simulate:
            ex += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed), "-aril", "0"]
            workers = 1
        wd = os.path.join(self.workdir, f"model{len(self.cov['models'])}")
        r = tlc.run(module, cfg, wd, workers=workers, extra=ex, timeout=timeout, heap=heap)
        ok = ("No error has been found" in r.out) or (simulate and "Error:" not in r.out and not r.timeout)
        if not ok:
            raise tlc.ToolError(f"model {module} did not check:\n" + r.out[-4000:])
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m: r.states = r.distinct = int(m[-1])
        self.cov["states"] += r.distinct; self.cov["transitions"] += r.states
        self.cov["models"].append(dict(module=module, constants=constants, invariants=invariants, mode="simulate" if simulate else "exhaustive",
                                       states=r.states, distinct=r.distinct, depth=r.depth, wall_s=round(r.wall, 1)))
        # (several workers print in any order: sorted, so that a seed determines what is run)
        return sorted(tlc.strings(r.out, prefix)) if prefix else r

    # ---- conformance --------------------------------------------------------------------
    def conform(self, exe, module, script, tag, secs=20, cfg_extra="", timeout=800, env=None, denv=None, jobs=None, heap="3g"):
        if not script:
            raise tlc.ToolError(f"empty script {tag}")
        rejs, events = conf.conform(exe, module, script, self.workdir, tag, secs=secs, cfg_extra=cfg_extra,
                                    timeout=timeout, env=env, denv=denv, jobs=jobs, heap=heap)
        eps = sum(1 for s in script if s.startswith("ep "))
        self.cov["events"] += events; self.cov["episodes"] += eps
        self.cov["traces_validated_against_impl"] += eps
        self.cov["parts"].append(dict(part=tag, spec=module, episodes=eps, events=events))
        if len(self.samples) < 6 and script:
            self.samples.append("; ".join(s[:160] for s in script[:4]))
        for rej in rejs:
            self._report(exe, module, rej, tag, secs, cfg_extra, env, denv)
        return events

    def _report(self, exe, module, rej, tag, secs, cfg_extra, env, denv):
        # re-run the offending episode on its own: a rejection counts only if it repeats
        nm = f"re_{tag}_{len(self.violations)}"
        for _ in range(4):          # (several tries: the code under test may have become nondeterministic)
            lp = conf.run_driver(exe, rej.script, self.workdir, nm, secs=secs, env=denv)
            ok, matched, total, out = conf.validate(module, lp, self.workdir, nm, cfg_extra, env=env)
            if not ok: break
            if '"op":"hang"' in rej.event:
                return          # a time limit met on a loaded machine: not repeatable, not a verdict
        if ok:
            raise tlc.ToolError(f"rejection of {tag} did not repeat on its own: " + rej.event[:500] + "\n" + rej.out[-1500:])
        if matched < 0:
            ln = conf.find_eval_error_line(lp, out)
            matched = (ln - 1) if ln else 0
        evs = open(lp).read().splitlines()
        ev = evs[matched] if matched < len(evs) else "(end)"
        rdir = os.path.join(VERIF, "build", "replay"); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{self.pid}-{tag}-{len(self.violations)}.txt")
        with open(rp, "w") as f:
            f.write(f"property {self.pid}\ndriver {os.path.basename(exe)}\nspecification {module}\n"
                    f"rejected event (number {matched + 1} of the episode):\n{ev}\n\nscript:\n" + "\n".join(rej.script) +
                    "\n\nevents before it:\n" + "\n".join(evs[max(0, matched - 6):matched]) +
                    "\n\nspecification output:\n" + out[-3000:] + "\n\nstderr:\n" +
                    open(os.path.join(self.workdir, nm + ".stderr"), errors="replace").read()[-3000:])
        self.violations.append((rp, f"{tag}: {ev[:300]}"))

    def finding(self, kid, text):
        """A known finding reproduced: only allowed if it is in the committed list."""
        if kid in self.known:
            self.known_hits.append(f"{kid} {text}")
            return True
        return False

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {k["id"]: k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"}

def main(pid, fn, level):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        fn(ctx)
        wall = time.time() - ctx.t0
        cov = ctx.cov
        ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(wall, 1),
                  coverage=dict(states=cov["states"], transitions=cov["transitions"],
                                traces_validated_against_impl=cov["traces_validated_against_impl"],
                                samples=ctx.samples, events=cov["events"], models=cov["models"], parts=cov["parts"]),
                  assumptions=ctx.assumptions, violations=len(ctx.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in ctx.known_hits:
            print(f"KNOWN-FINDING: property={pid} {t}")
        if ctx.violations:
            for rp, t in ctx.violations:
                print(f"VIOLATION property={pid} replay={rp}")
                print("  " + t)
            rc = 1
        else:
            print(f"OK property={pid} tier={tier} states={cov['states']} events={cov['events']} wall={wall:.1f}s")
            rc = 0
    except (tlc.ToolError, build.BuildError) as e:
        print(f"ERROR property={pid}: {e}"); rc = 2
    except Exception:
        traceback.print_exc(); print(f"ERROR property={pid}"); rc = 2
    if rc == 0 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(ctx.workdir, ignore_errors=True)
    sys.exit(rc)
