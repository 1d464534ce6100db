#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working tree,
runs its tasks in parallel, replays a part of the explored cases on the plain
build, writes the evidence and reports.

  check.py ID [--tier quick|thorough] [--replay FILE] [--budget S] [--keep]
"""
import argparse, atexit, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plans import PLANS  # noqa: E402

T0 = time.time()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GONOSUMDB="*", GONOSUMCHECK="1")
ENV["PATH"] = "/usr/local/bin:/usr/local/go/bin:" + ENV.get("PATH", "/usr/sbin:/usr/bin:/sbin:/bin")
ENV.setdefault("HOME", "/root")
NCPU = max(1, min(8, os.cpu_count() or 1))

procs = set()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


NOBODY = 65534


def can_drop():
    """can processes be started as an unprivileged user?"""
    try:
        return subprocess.run(["true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except Exception:
        return False


def run(cmd, cwd=None, env=None, timeout=None, limit=0, out=None, drop=False):
    """returns (rc, stdout+stderr); rc None: timed out"""
    def pre():
        os.setsid()
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=pre,
                         **(dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop else {}))
    procs.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o.decode("utf-8", "replace")
    finally:
        procs.discard(p)


def cleanup_procs():
    for p in list(procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass


atexit.register(cleanup_procs)


class Builder:
    def __init__(self, scratch, tags=(), extra=None):
        self.s = scratch
        self.fail = {}
        self.tags = list(tags)
        self.extra = extra or {}
        self.cmd = "dupi"  # the command built for the dupi-... kinds

    def tool(self):
        exe = os.path.join(self.s, "instr")
        rc, o = run(["go", "build", "-o", exe, "."], cwd=os.path.join(VERIF, "tools", "instr"))
        if rc != 0:
            raise RuntimeError("building the instrumenter: " + o)
        return exe

    def prepare(self, kinds):
        exe = self.tool()
        self.overlay = {}
        for mode in ("inst", "scale", "plain", "small"):
            if mode != "plain" and not any(k.split("-")[0] == mode for k in kinds):
                continue
            d = os.path.join(self.s, mode)
            os.makedirs(d, exist_ok=True)
            cmd = [exe, "-repo", REPO, "-rt", os.path.join(VERIF, "rt"), "-out", d]
            if mode in ("plain", "small"):
                cmd.append("-plain")
            if mode in ("scale", "small"):
                cmd += ["-scale", "256"]
            if self.extra:
                cmd += ["-extra", ",".join("%s=%s" % (k, os.path.join(VERIF, v)) for k, v in self.extra.items())]
            rc, o = run(cmd, cwd=REPO)
            if rc != 0:
                self.fail[mode] = o
                log("instrumenting failed:", o[-1500:])
                continue
            self.overlay[mode] = os.path.join(d, "overlay.json")

    def build(self, kind, pkg="harness"):
        """kind: inst, inst-race, scale (small shard tables), scale-race, plain, small (plain, small shard tables), dupi-plain, dupi-small (the command)"""
        exe = os.path.join(self.s, "h-%s-%s" % (kind, pkg))
        if kind.startswith("dupi-"):
            mode = kind[5:]
            if mode not in self.overlay:
                return None
            rc, o = run(["go", "build", "-overlay", self.overlay[mode], "-o", exe, "./cmd/" + self.cmd], cwd=REPO)
        else:
            mode = kind.split("-")[0]
            if mode not in self.overlay:
                return None
            # optional parts that reach into unexported code come by tag
            for tags in ([self.tags, []] if self.tags else [[]]):
                cmd = ["go", "build", "-overlay", self.overlay[mode], "-o", exe,
                       "-tags", ",".join(tags + {"inst": ["zzinst"], "scale": ["zzinst", "zzscale"], "small": ["zzscale"]}.get(mode, []))]
                if kind.endswith("-race"):
                    cmd += ["-race"]
                rc, o = run(cmd + ["./zz_verif/" + pkg], cwd=REPO)
                if rc == 0:
                    break
                log("build of", kind, pkg, tags, "failed:", o[-1500:])
        if rc != 0:
            self.fail[kind] = o
            log("build of", kind, pkg, "failed:", o[-3000:])
            return None
        return exe


def read_json(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


class Check:
    def __init__(self, prop, tier, budget, scratch):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self.plan = PLANS[prop]
        self.budget = budget or self.plan.get(tier, 25 if tier == "quick" else 600)
        self.viol = []       # (build, key, msg, schedule)
        self.reports = []
        self.why = []
        self.validated = 0
        self.mismatch = []
        self.n = 0
        self.noplain = False
        self.drop = bool(self.plan.get("drop"))

    def task(self, exe, kind, part, of, budget, extra=(), timeout=None):
        self.n += 1
        base = os.path.join(self.scratch, "t%d-%s-%d" % (self.n, kind, part))
        out, prog = base + ".json", base + ".key"
        tmp = base + ".tmp"
        os.makedirs(tmp, exist_ok=True)
        # what deletes real files, or must not read some, runs as a user that owns nothing else
        drop = kind in ("plain", "small") and self.drop
        if drop:
            for p in (out, prog):
                open(p, "w").close()
                os.chown(p, NOBODY, NOBODY)
            os.chown(tmp, NOBODY, NOBODY)
            os.chmod(self.scratch, 0o755)
        env = dict(ENV, TMPDIR=tmp, GOMAXPROCS="2", GOGC="400", HOME=tmp, GOPS_CONFIG_DIR=tmp, GOTRACEBACK="all")
        if self.bins.get("dupi-" + kind):
            env["DUPI_BIN"] = self.bins["dupi-" + kind]
        limit = 12 << 30
        if kind.endswith("-race"):
            env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3"
            limit = 0
        cmd = [exe, "-check", self.prop, "-part", "%d/%d" % (part, of), "-out", out, "-tier", self.tier,
               "-budget", str(budget), "-progress", prog] + list(extra)
        rc, o = run(cmd, cwd=tmp, env=env, timeout=timeout or budget + 90, limit=limit, drop=drop)
        key = None
        try:
            key = open(prog).read().split("\n")[0].rstrip() or None
        except Exception:
            pass
        r = read_json(out) if rc == 0 else None
        shutil.rmtree(tmp, ignore_errors=True)
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        return rc, o, r, key

    def crash_msg(self, rc, o):
        if rc == 66 or "DATA RACE" in o:
            i = o.find("WARNING: DATA RACE")
            return "data race: " + re.sub(r"\s+", " ", o[i:i + 1500])
        m = re.search(r"(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)", o)
        i = m.start() if m else max(0, len(o) - 1200)
        return "the process died (%s): %s" % (rc, re.sub(r"\s+", " ", o[i:i + 1200]))

    def run_all(self, exe, kind, of, budget, extra=()):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = {ex.submit(self.task, exe, kind, i, of, budget, extra): i for i in range(of)}
            for f in cf.as_completed(fs):
                i = fs[f]
                rc, o, r, key = f.result()
                if r is not None:
                    r["kind"] = kind
                    self.reports.append(r)
                    if not r["complete"] and not extra:
                        self.why += r["why"] or []
                    for v in r["violations"] or []:
                        self.viol.append((kind, v["key"], v["msg"], v.get("schedule")))
                    continue
                if rc is None:
                    log("task", kind, i, "ran out of time in", key)
                    self.why.append("a task ran out of time in case %s" % key)
                    continue
                if rc == 3 or key is None:
                    log("task", kind, i, "failed:", o[-2000:])
                    self.why.append("a task could not run: " + o[-200:])
                    continue
                msg = self.crash_msg(rc, o)
                log("task", kind, i, "died in", key, ":", msg[:600])
                # again, that case alone
                rc2, o2, r2, _ = self.task(exe, kind, i, of, budget, list(extra) + ["-replay", key])
                if rc2 not in (0, None, 3) and rc2 != -9:
                    self.viol.append((kind, key, self.crash_msg(rc2, o2), None))
                elif r2 and r2["violations"]:
                    for v in r2["violations"]:
                        self.viol.append((kind, v["key"], v["msg"], v.get("schedule")))
                else:
                    self.why.append("a task died once in case %s: %s" % (key, msg[:200]))

    def confirm(self, b, pkg, kind):
        """keep the violations that happen with the real shard tables too; true if none did"""
        exe = self.bins.get(kind) or b.build(kind, pkg)
        self.bins[kind] = exe
        if self.plan.get("dupi") and not self.bins.get("dupi-" + kind):
            self.bins["dupi-" + kind] = b.build("dupi-" + kind, pkg)
        kept, n = [], 0
        t0 = time.time()
        for k, key, msg, sched in self.viol:
            if msg.startswith("data race") or msg.startswith("the process died"):
                kept.append((k, key, msg, sched))
                continue
            n += 1
            if n > 6 or not exe or kept and time.time() - t0 > 45:
                continue
            extra = ["-replay", key]
            if sched is not None:
                extra += ["-schedule", json.dumps(sched)]
            rc, o, r, _ = self.task(exe, kind, 0, 1, self.plan.get("confirm_s", 60), extra)
            if r and r["violations"]:
                v = r["violations"][0]
                kept.append((kind, v["key"], v["msg"], v.get("schedule")))
            elif rc not in (0, None, 3, -9):
                kept.append((kind, key, self.crash_msg(rc, o), sched))
            else:
                log("only with small tables:", key, msg[:600])
                self.why.append("failed only with small tables: %s: %s" % (key, msg[:200]))
        self.viol = kept
        return not kept

    def main(self):
        if self.drop and not can_drop():
            # without an unprivileged user there are no runs on real files
            self.why.append("no unprivileged user for the runs on real files")
            self.noplain = True
        b = Builder(self.scratch, self.plan.get("tags", ()), self.plan.get("extra"))
        if isinstance(self.plan.get("dupi"), str):
            b.cmd = self.plan["dupi"]
        kinds = self.plan["kinds"]
        pkg = self.plan.get("pkg", "harness")
        if os.environ.get("VERIF_KINDS"):
            kinds = os.environ["VERIF_KINDS"].split(",")
        confirm = self.plan.get("confirm", {})
        b.prepare(list(kinds) + [confirm[k] for k in kinds if k in confirm])
        with cf.ThreadPoolExecutor(4) as ex:
            want = list(kinds)
            if self.plan.get("dupi"):
                want += ["dupi-" + k for k in kinds]
            self.bins = dict(zip(want, ex.map(lambda k: b.build(k, pkg), want)))
        if not any(self.bins.get(k) for k in kinds) and "plain" not in kinds:
            b.prepare(["plain"])
            self.bins["plain"] = b.build("plain", pkg)
        log("built", {k: bool(v) for k, v in self.bins.items()})
        for k, v in self.bins.items():
            if not v:
                self.why.append("no %s build: %s" % (k, (b.fail.get(k) or b.fail.get(k.split("-")[0]) or "")[-300:]))
        if self.plan.get("dupi"):
            for k in kinds:
                if not self.bins.get("dupi-" + k):
                    self.bins[k] = None
        of = self.plan.get("parts", NCPU)
        if self.noplain:
            self.bins["plain"] = self.bins["small"] = None
        main = [k for k in kinds if k != "plain" and self.bins.get(k)]
        if not main and self.bins.get("plain"):
            main = ["plain"]
        share = self.plan.get("share", {})
        spent = 0.0
        for i, k in enumerate(main):
            # what earlier builds have left is for the later ones
            left = (self.budget - spent) / (len(main) - i)
            t0 = time.time()
            self.run_all(self.bins[k], k, of, self.budget * share[k] if k in share else left)
            spent += time.time() - t0
            if k in confirm and self.viol and self.confirm(b, pkg, confirm[k]):
                # what fails only with small tables says nothing; use the real ones
                log("falling back to", confirm[k])
                ENV["VERIF_FALLBACK"] = "1"
                exe = self.bins[confirm[k]]
                if exe:
                    self.run_all(exe, confirm[k], of, self.budget * share.get(k, 1.0 / len(main)))
            log(k, "done:", sum(r["cases"] for r in self.reports if r["kind"] == k), "cases,", len(self.viol), "violations")
            if self.viol:
                return
        # conformance: replay observed cases on the plain build
        if "plain" in kinds and main != ["plain"] and self.bins.get("plain"):
            obs = {}
            for r in self.reports:
                obs.update(r.get("obs") or {})
            obs.pop("", None)
            if self.plan.get("replay_re"):
                obs = {k: v for k, v in obs.items() if re.search(self.plan["replay_re"], k)}
            want = self.plan.get("replay", {}).get(self.tier, 40 if self.tier == "quick" else 400)
            keys = sorted(obs, key=lambda k: hashlib.sha256(k.encode()).digest())[:want]
            exp = os.path.join(self.scratch, "expect.json")
            with open(exp, "w") as f:
                json.dump({k: obs[k] for k in keys}, f)
            self.run_all(self.bins["plain"], "plain", of, self.plan.get("replay_budget", {}).get(self.tier, 20 if self.tier == "quick" else 150), ["-expect", exp])
            for r in self.reports:
                if r["kind"] == "plain":
                    self.validated += r["validated"]
                    self.mismatch += r["mismatch"] or []
            log("plain build: %d of %d cases validated, %d mismatches" % (self.validated, len(keys), len(self.mismatch)))
            for m in self.mismatch[:5]:
                log("mismatch:", m[:600])


def known(prop):
    """known findings: lines 'finding: property=ID key=... <text>'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3).strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    base = os.environ.get("TMPDIR", "/tmp")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.prop, dir=base)
    atexit.register(lambda: a.keep or shutil.rmtree(scratch, ignore_errors=True))
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(0))
    c = Check(a.prop, a.tier, a.budget, scratch)
    if a.replay:
        r = read_json(a.replay)
        b = Builder(scratch, PLANS[a.prop].get("tags", ()), PLANS[a.prop].get("extra"))
        if isinstance(PLANS[a.prop].get("dupi"), str):
            b.cmd = PLANS[a.prop]["dupi"]
        b.prepare([r["build"]])
        c.bins = {"dupi-" + r["build"]: b.build("dupi-" + r["build"])} if PLANS[a.prop].get("dupi") else {}
        exe = b.build(r["build"], PLANS[a.prop].get("pkg", "harness"))
        c.tier = r.get("tier", a.tier)
        extra = ["-replay", r["key"]]
        if r.get("schedule"):
            extra += ["-schedule", json.dumps(r["schedule"])]
        rc, o, rep, key = c.task(exe, r["build"], 0, 1, 600, extra)
        if rep and rep["violations"]:
            print("reproduced:", rep["violations"][0]["msg"])
            sys.exit(1)
        if rc not in (0, None):
            print("reproduced:", c.crash_msg(rc, o))
            sys.exit(1)
        print("not reproduced")
        sys.exit(0)
    try:
        c.main()
    except Exception as e:  # an error of the check is not a verdict
        import traceback
        traceback.print_exc()
        c.why.append("error of the check: %r" % e)
    finish(c, a)


def finish(c, a):
    prop = c.prop
    R = c.reports
    inst = [r for r in R if r["kind"] != "plain"] or R
    S = lambda k: sum(r[k] for r in inst)
    spaces, samples, notes = [], [], {}
    for r in inst:
        for s in r.get("spaces") or []:
            if s not in spaces:
                spaces.append(s)
        samples += (r.get("samples") or [])[:3]
        for k, v in (r.get("notes") or {}).items():
            notes[k] = notes.get(k, 0) + v
    states = S("states") if R else 0
    cov = {
        "states": states,
        "transitions": S("events") if R else 0,
        "traces_validated_against_impl": c.validated + (S("cases") if R and not any(r["inst"] for r in inst) else 0),
        "evaluations": (S("cases") + S("evals") + S("execs")) if R else 0,
        "distinct_nontrivial": S("distinct") if R else 0,
        "cases": S("cases") if R else 0,
        "schedules": S("execs") if R else 0,
        "rule": c.plan["rule"],
        "samples": samples[:8] or ["none"],
        "spaces": spaces[:60],
        "exhaustive": not c.why,
        "not_finished": sorted(set(c.why))[:20],
        "conformance_mismatches": c.mismatch[:10],
        "counters": notes,
        "max_events_per_execution": max([r["maxevents"] for r in R] or [0]),
        "max_goroutines": max([r["maxgs"] for r in R] or [0]),
    }
    kn = known(prop)
    new, old = [], {}
    for v in c.viol:
        hit = None
        for rx, text in kn:
            if rx.search(v[1] + " " + v[2]):
                hit = text
        if hit:
            old[hit] = v
        else:
            new.append(v)
    # mismatches between model and reality are an error of the machinery
    ev = {"property": prop, "tier": c.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": c.plan["level"],
          "coverage": cov, "assumptions": c.plan.get("assumes", []), "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    log("%d cases, %d schedules, %d evaluations, %d states, %d transitions, %d validated, exhaustive=%s" % (
        cov["cases"], cov["schedules"], cov["evaluations"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"]))
    for w in sorted(set(c.why))[:8]:
        log("not finished:", w[:400])
    for text in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    rc = 0
    for i, (kind, key, msg, sched) in enumerate(new[:3]):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "build": kind, "tier": c.tier, "key": key, "msg": msg, "schedule": sched,
                       "how": "python3 check.py %s --replay %s" % (prop, path)}, f, indent=1)
        print("case %s [%s]: %s" % (key, kind, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
