import concurrent.futures as cf
import json, os, shutil, signal, subprocess, sys, time, traceback
import vbuild, vtlc
from vbuild import VERIF, BUILD
from registry import PROPS, DRIVERS

FLOOD = 64 << 20  # bytes; the longest trace of an unchanged tree has 2 MB


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                kv = dict(x.split("=", 1) for x in line.split()[1:3])
                out.append((kv["property"], kv["key"], line.split(None, 3)[3]))
    return out


class Shard:
    """one driver process and the trace it wrote"""

    def __init__(self, prop, run, idx, seed, n, exe):
        self.prop, self.run, self.idx, self.seed, self.n, self.exe = prop, run, idx, seed, n, exe
        self.name = "%s-%s-%s-%d" % (prop, run["driver"], run.get("mode", ""), idx)

    def record(self, attempt=0):
        """run the driver; returns the trace path. Abnormal ends become a last event of the trace."""
        d = os.path.join(BUILD, "run", self.name + "-a%d" % attempt)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "scratch"))
        trace = os.path.join(d, "scratch", "trace.ndjson")
        env = dict(os.environ)
        env["VERIF_SCRATCH"] = os.path.join(d, "scratch")
        env["HOME"] = env["TMPDIR"] = env["VERIF_SCRATCH"]
        env["VERIF_HARNESS"] = os.path.join(VERIF, "harness")
        env["VERIF_REPO"] = vbuild.REPO
        if self.run.get("pre"):
            self.run["pre"](self, os.path.join(d, "scratch"), env)
        # no file of a driver may grow beyond 4 * FLOOD bytes (ulimit counts blocks of 512 bytes)
        cmd = ["/bin/sh", "-c", 'ulimit -f %d; exec "$@"' % (FLOOD * 4 // 512), "sh", self.exe, trace, str(self.seed), str(self.idx), str(self.n), self.run.get("mode", "")]
        kw = {}
        if self.run.get("unpriv"):
            subprocess.run(["chown", "-R", "65534:65534", os.path.join(d, "scratch")])
            kw = dict(user=65534, group=65534, extra_groups=[])
        timeout = self.run.get("timeout", 120)
        t = time.time()
        with open(os.path.join(d, "log"), "wb") as log:
            p = subprocess.Popen(cmd, cwd=os.path.join(d, "scratch"), env=env, stdout=log,
                                 stderr=subprocess.STDOUT, start_new_session=True, **kw)
            try:
                rc = p.wait(timeout=timeout)
                end = None if rc == 0 else ("hang" if rc == 86 else "crash")
            except subprocess.TimeoutExpired:
                rc, end = None, "hang"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        self.wall = time.time() - t
        lines = []
        if os.path.exists(trace):
            # a driver that floods its trace has run away: its beginning is enough to say so
            flood = os.path.getsize(trace) > FLOOD
            if flood:
                end = end or "flood"
            with open(trace, "rb") as f:
                raw = f.read(1 << 18 if flood else -1).decode(errors="replace")
            parts = raw.split("\n")
            lines = parts[:-1]
        bad = []
        for x in lines[-3:]:
            try:
                json.loads(x)
            except ValueError:
                bad.append(x)
        lines = [x for x in lines if x not in bad]
        if end:
            lines.append(json.dumps({"ev": "abnormal", "kind": end, "rc": rc if rc is not None else -1}))
        out = os.path.join(d, "trace.ndjson")
        with open(out, "w") as f:
            f.write("\n".join(lines) + ("\n" if lines else ""))
        self.end, self.rc = end, rc
        self.episodes = sum(1 for x in lines if '"ev":"begin"' in x or '"ev":"run"' in x)
        self.events = len(lines)
        self.lines = lines
        return out

    def validate(self, trace):
        return vtlc.validate_trace(self.run["spec"], trace, timeout=self.run.get("tlc_timeout", 700),
                                   cfg=self.run.get("cfg"),
                                   env=dict(self.run.get("env") or {}, KNOWN=",".join(k for p, k, _ in known_findings() if p == self.prop)))


class ToolError(Exception):
    pass


def verdict(r):
    """True accepted, False rejected; raises on a failure of the tool itself"""
    if r.accepted:
        return True
    if "OutOfMemory" in r.out or r.rc in (254, 1, 137, 143) or r.rc < 0:
        raise ToolError("TLC failed (rc %d)\n%s" % (r.rc, r.out[-3000:]))
    if "Parsing or semantic analysis failed" in r.out or "*** Errors:" in r.out or "Parse Error" in r.out:
        errs = [x for x in r.out.splitlines() if x.strip() and not x.startswith(("Parsing", "Semantic proc", "Linting"))]
        raise ToolError("TLC could not load the specification\n" + "\n".join(errs)[-1200:])
    return False


def run_shard(sh):
    """-> (rejected: bool, info dict)"""
    trace = sh.record(0)
    r = sh.validate(trace)
    ok = verdict(r)
    info = dict(shard=sh.name, seed=sh.seed, events=sh.events, episodes=sh.episodes, generated=r.generated,
                distinct=r.distinct, wall=round(sh.wall, 1), tlc_wall=round(r.wall, 1))
    info["sample"] = [x[:300] for x in sh.lines[:6]]
    # what the specification accepted only because it is a listed finding
    info["known"] = sorted({x.split("KNOWNFINDING ")[1].strip(' ">') for x in r.out.splitlines() if "KNOWNFINDING " in x})
    if ok:
        if sh.end:
            raise ToolError("driver %s ended abnormally (rc %s) but its trace was accepted" % (sh.name, sh.rc))
        if sh.events == 0:
            raise ToolError("driver %s recorded nothing" % sh.name)
        return False, info
    first_end, first_rc = sh.end, sh.rc
    # confirm
    t2 = sh.record(1)
    r2 = sh.validate(t2)
    again = not verdict(r2)
    if not again:
        # a recorded misbehaviour stays one, a missed deadline or an outside kill need not be
        hard = first_end is None or (first_end == "crash" and first_rc not in (-9, 137))
        if hard:
            again = not verdict(sh.validate(trace))
        else:
            sh.record(2)
            again = sh.end is not None
    info["rejected"] = again
    info["trace"] = trace
    info["tlc_out"] = r.out[-2500:]
    info["end"] = first_end
    if first_end:
        lg = os.path.join(os.path.dirname(trace), "log")
        info["log"] = open(lg, errors="replace").read()[-1500:]
    return again, info


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        return check(prop, tier, seed)
    except vbuild.BuildError as e:
        print("ERROR: the harness does not build against /repo\n" + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    runs = P.get("runs", [])
    deep = tier == "thorough"
    res = dict(states=0, transitions=0)
    mc_info, infos, viol = [], [], []
    ex = cf.ThreadPoolExecutor(max_workers=16)
    mcs = [m for m in P.get("mc", []) if deep or not m.get("thorough_only")]

    def do_mc(m):
        cfg = m["cfg_thorough"] if deep and "cfg_thorough" in m else m["cfg"]
        r = vtlc.run_tlc(m["module"] + ".tla", cfg + ".cfg", workers=m.get("workers", 2),
                         timeout=(m.get("timeout_thorough", 3600) if deep else 600), xmx=m.get("xmx", "4g"),
                         extra=m.get("extra", []))
        if m.get("refute"):
            # a model that has the mistake on purpose: the invariant has to catch it
            if r.rc not in (12, 13):
                raise ToolError("model %s/%s: the deliberate mistake is not caught (rc %d)\n%s" % (m["module"], cfg, r.rc, r.out[-4000:]))
        elif not r.accepted:
            raise ToolError("model %s/%s is not accepted by TLC (rc %d)\n%s" % (m["module"], cfg, r.rc, r.out[-4000:]))
        return dict(model=m["module"], cfg=cfg, generated=r.generated, distinct=r.distinct, wall=round(r.wall, 1))

    mc_f = [ex.submit(do_mc, m) for m in mcs]
    drv = sorted({r["driver"] for r in runs})
    exes = vbuild.build([dict(name=d, **DRIVERS[d]) for d in drv]) if drv else {}
    t_build = time.time() - t0
    shards = []
    for r in runs:
        if r.get("thorough_only") and not deep:
            continue
        n = r.get("shards_thorough", r.get("shards", 1) * 4) if deep else r.get("shards", 1)
        for i in range(n):
            shards.append(Shard(prop, r, i, seed * 1000 + i, n, exes[r["driver"]]))
    px = cf.ThreadPoolExecutor(max_workers=P.get("parallel", 6))
    fut = {px.submit(run_shard, s): s for s in shards}
    errors = []
    for f in cf.as_completed(fut):
        try:
            bad, info = f.result()
        except Exception as e:
            errors.append("%s: %s" % (fut[f].name, e))
            continue
        infos.append(info)
        if bad:
            viol.append(info)
        elif "rejected" in info:
            print("note: a rejection of %s did not repeat and is not reported" % info["shard"])
    for f in mc_f:
        try:
            mc_info.append(f.result())
        except Exception as e:
            errors.append(str(e))
    # what a specification accepted as a listed finding is reported as that; anything else it rejected
    seen = {k for i in infos for k in i.get("known", [])}
    for p, k, w in known_findings():
        if p == prop and k in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, w))
    real = viol
    for v in real:
        rd = os.path.join(BUILD, "replays", prop)
        os.makedirs(rd, exist_ok=True)
        dst = os.path.join(rd, v["shard"] + ".ndjson")
        shutil.copy(v["trace"], dst)
        with open(os.path.join(rd, v["shard"] + ".txt"), "w") as f:
            f.write(v["tlc_out"] + "\n" + str(v.get("end")) + "\n" + v.get("log", ""))
        print("--- %s: trace rejected by the specification (seed %d, %s)" % (v["shard"], v["seed"], v.get("end") or "ran to its end"))
        print("\n".join(x for x in v["tlc_out"].splitlines() if "REJECT" in x or "Error" in x or "Attempted" in x)[:3000])
        if v.get("log"):
            print("driver log: " + v["log"][-400:])
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    infos.sort(key=lambda i: i["shard"])
    cov = dict(
        states=sum(m["distinct"] for m in mc_info) + sum(i["distinct"] for i in infos),
        transitions=sum(m["generated"] for m in mc_info) + sum(i["generated"] for i in infos),
        traces_validated_against_impl=sum(i["episodes"] for i in infos if not i.get("rejected")),
        trace_files=len(infos), trace_events=sum(i["events"] for i in infos),
        models=mc_info,
        recordings=[{k: i[k] for k in ("shard", "seed", "events", "episodes", "wall", "tlc_wall")} for i in infos],
        samples=[i["sample"] for i in infos[:2]],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(os.path.join(BUILD, "run"), ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    print("%s %s: build %.0fs, total %.0fs, %d model states, %d traces / %d events validated%s" % (
        prop, tier, t_build, time.time() - t0, sum(m["distinct"] for m in mc_info),
        cov["traces_validated_against_impl"], cov["trace_events"], ", %d VIOLATIONS" % len(real) if real else ""))
    if real:
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    return 0
