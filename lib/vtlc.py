"""Runs TLC: exhaustive models (MC) and trace validation."""
import os, re, shutil, subprocess, tempfile, time
from vbuild import VERIF, BUILD

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")
# TLC exit codes which say "the behaviour (or model) is not a correct one"
REJECT = {10, 11, 12, 13}


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.accepted = rc == 0
        self.eval_error = ("TLC threw an unexpected exception" in out or "evaluating" in out
                           or "Attempted to" in out)


def run_tlc(module, cfg, workers=1, env=None, timeout=600, xmx="3g", extra=(), c1=False):
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    meta = tempfile.mkdtemp(dir=os.path.join(BUILD, "tlc"))
    e = dict(os.environ)
    if env:
        e.update(env)
    cmd = ["java", "-Xmx" + xmx, "-Xss64m",
           "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC"]
    if c1:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg] + list(extra) + [module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 254, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        out += "\nTLC TIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t)


def validate_trace(module, trace, timeout=600, cfg=None, env=None):
    ev = {"TRACE": trace}
    if env:
        ev.update(env)
    return run_tlc(module + ".tla", (cfg or module) + ".cfg", workers=1, env=ev, timeout=timeout, c1=False)
