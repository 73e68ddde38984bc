"""Run TLC and interpret what it says."""
import os, re, subprocess, tempfile, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

class Result:
    pass

def run(module, cfg, workdir, workers=1, extra=(), timeout=600, heap="3g", env=None, jvm=()):
    """cfg: text of the configuration.  Returns Result(out, rc, states, distinct, depth)."""
    os.makedirs(workdir, exist_ok=True)
    cfgf = os.path.join(workdir, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=workdir)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, f"-Xmx{heap}", "-Xss256m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta] + list(jvm) + [
           "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-config", cfgf, "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    if env:
        e.update(env)
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=workdir, env=e)
        out = p.stdout.decode("utf-8", "replace"); rc = p.returncode; to = False
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode("utf-8", "replace"); rc = -1; to = True
    shutil.rmtree(meta, ignore_errors=True)
    r = Result(); r.out = out; r.rc = rc; r.timeout = to; r.wall = time.time() - t
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.states, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r.depth = int(m[-1]) if m else None
    return r

def strings(out, prefix):
    """TLC prints strings quoted with escapes: return the decoded payloads that start with prefix."""
    import json
    res = []
    for line in out.splitlines():
        if line.startswith('"' + prefix):
            try:
                s = json.loads(line)
            except Exception:
                continue
            res.append(s[len(prefix):].strip())
    return res
