#!/usr/bin/env python3
"""Runs the check of one property:  check.py C07 [--replay FILE]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough). Exit 0: held on everything explored.
Exit 1 with "VIOLATION property=<id> replay=<path>": broken. Anything else: an error of the check."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import overlay
from props import PROPS

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1",
           GOFLAGS_EXTRA="", LC_ALL="C.UTF-8")
ENV.setdefault("HOME", "/root")
if shutil.which("go", path=ENV.get("PATH")) is None:
    ENV["PATH"] = "/usr/local/go/bin:" + ENV.get("PATH", "") + ":/usr/local/bin:/usr/bin:/bin"
os.environ["PATH"] = ENV["PATH"]

NOBODY = 65534


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def demote():
    """Run the code under test as an unprivileged user, so that an escaped file operation reaches nothing real."""
    try:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    except OSError:
        pass


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = PROPS[pid]
        self.t0 = time.time()
        self.budget = 780 if tier == "quick" else 6 * 3600
        self.build = tempfile.mkdtemp(prefix="verif-build-")
        os.chmod(self.build, 0o755)
        shm = "/dev/shm"
        ok = os.path.isdir(shm) and os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 2 << 30
        self.scratch = tempfile.mkdtemp(prefix="verif-run-", dir=shm if ok else None)
        os.chmod(self.scratch, 0o755)
        self.n = 0

    def close(self):
        shutil.rmtree(self.build, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def compile(self):
        src = os.path.join(HERE, "harness")
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(src, f), os.path.join(self.build, f))
        ov = overlay.write(os.path.join(self.build, "overlay"))
        self.bin = os.path.join(self.build, "check.test")
        cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(self.build, "go.mod"), "-overlay=" + ov, "-o", self.bin]
        if self.cfg.get("race"):
            cmd.insert(3, "-race")
        cmd.append("./" + self.pid.lower())
        self.go(cmd, src)
        self.extra = {}
        if self.cfg.get("server"):
            out = os.path.join(self.build, "server")
            cmd = ["go", "build", "-o", out]
            env = dict(ENV, GOFLAGS="-mod=readonly")
            self.go(cmd + ["."], "/repo", env)
            self.extra["VERIF_SERVER"] = out
            race = os.path.join(self.build, "server-race")
            self.go(["go", "build", "-race", "-o", race, "."], "/repo", env)
            self.extra["VERIF_SERVER_RACE"] = race

    def go(self, cmd, cwd, env=None):
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

    def start(self, shards=1, shard=0, replay=None, times=0):
        self.n += 1
        d = os.path.join(self.scratch, "r%d" % self.n)
        out, scr = os.path.join(d, "out"), os.path.join(d, "a", "b", "c", "d", "e", "f")
        os.makedirs(out)
        os.makedirs(scr)
        for root, dirs, files in os.walk(d):
            try:
                os.chown(root, NOBODY, NOBODY)
            except OSError:
                pass
        env = dict(ENV, VERIF_OUT=out, VERIF_SCRATCH=scr, VERIF_PROPERTY=self.pid, VERIF_TIER=self.tier,
                   VERIF_SEED=str(self.seed), VERIF_SHARDS=str(shards), VERIF_SHARD=str(shard), TMPDIR=scr,
                   GORACE="halt_on_error=1 exitcode=66 history_size=3", GOTRACEBACK="all", HOME=scr)
        env.update(self.extra)
        if shards > 1:
            env["GOMAXPROCS"] = str(self.cfg.get("procs", 2))
        if replay:
            rp = os.path.join(d, "replay.json")
            json.dump(replay, open(rp, "w"))
            os.chmod(rp, 0o644)
            env.update(VERIF_REPLAY=rp, VERIF_REPLAY_TIMES=str(times))
        err = open(os.path.join(d, "stderr"), "wb")
        p = subprocess.Popen([self.bin, "-test.timeout=0"], cwd=scr, env=env, stdin=subprocess.DEVNULL, stdout=err,
                             stderr=err, preexec_fn=demote, start_new_session=True)
        return dict(p=p, dir=d, out=out)

    def wait(self, jobs, limit, stop_early=True):
        end = time.time() + limit
        while True:
            alive = [j for j in jobs if j["p"].poll() is None]
            if not alive:
                break
            bad = stop_early and any(j["p"].poll() not in (None, 0) for j in jobs)
            if bad or time.time() > end:
                for j in alive:
                    self.kill(j)
                    j["killed"] = "other" if bad else "time"
                break
            time.sleep(0.05)
        for j in jobs:
            self.kill(j)

    @staticmethod
    def kill(j):
        try:
            os.killpg(j["p"].pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        j["p"].wait()

    @staticmethod
    def load(j, name):
        try:
            return json.load(open(os.path.join(j["out"], name)))
        except (OSError, ValueError):
            return None

    @staticmethod
    def stderr(j):
        try:
            return open(os.path.join(j["dir"], "stderr"), "rb").read().decode("utf-8", "replace")
        except OSError:
            return ""

    def replay_fails(self, rep, times=0, limit=200):
        """Replays a case in a fresh process. Returns (kind, message), or None if it passed."""
        j = self.start(replay=rep, times=times)
        self.wait([j], limit)
        res = None
        fails = glob.glob(os.path.join(j["out"], "fail-*.json"))
        if fails:
            res = ("fail", json.load(open(fails[0]))["message"])
        elif self.load(j, "hang.json"):
            res = ("hang", self.load(j, "hang.json")["message"])
        elif j.get("killed"):
            res = ("hang", "no answer within %d s" % limit)
        elif j["p"].returncode != 0:
            res = ("crash", crash_message(self.stderr(j), j["p"].returncode))
        elif not any((json.load(open(f)) or {}).get("done") for f in glob.glob(os.path.join(j["out"], "stats-*.json"))):
            raise CheckError("replay ran nothing:\n" + self.stderr(j)[-2000:])
        shutil.rmtree(j["dir"], ignore_errors=True)
        return res

    def shrink(self, rep, times, kind, budget=60):
        """Greedy reduction of the lists and maps in a case whose failure ends the process."""
        end = time.time() + min(budget, max(5, self.left() - 60))
        case = rep["case"]

        def fails(c):
            if time.time() > end:
                return False
            r = self.replay_fails(dict(rep, case=c), times, 60)
            return r is not None and r[0] == kind

        def paths(c, pre=()):
            if isinstance(c, list):
                yield pre
                for i, x in enumerate(c):
                    yield from paths(x, pre + (i,))
            elif isinstance(c, dict):
                for k, x in c.items():
                    yield from paths(x, pre + (k,))

        def at(c, p):
            for k in p:
                c = c[k]
            return c

        def without(c, p, i, n):
            c = json.loads(json.dumps(c))
            del at(c, p)[i:i + n]
            return c

        changed = True
        while changed and time.time() < end:
            changed = False
            for p in list(paths(case)):
                try:
                    l = at(case, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(l, list):
                    continue
                n = max(1, len(l) // 2)
                while n >= 1 and time.time() < end:
                    i = 0
                    while i < len(at(case, p)):
                        c = without(case, p, i, n)
                        if fails(c):
                            case, changed = c, True
                        else:
                            i += n
                    n //= 2
        return dict(rep, case=case)


def crash_message(err, rc):
    for pat in (r"WARNING: DATA RACE.*?={18}", r"(panic: .*)", r"(fatal error: .*)"):
        m = re.search(pat, err, re.S)
        if m:
            return m.group(0)[:3000]
    return "exit code %s: %s" % (rc, err[-1500:])


def findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def save_replay(pid, rep):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(rep, indent=1, ensure_ascii=False, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(b.encode()).hexdigest()[:12]))
    open(p, "w").write(b)
    return p


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Run(pid, tier, seed)
    try:
        return check(r, sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None)
    except CheckError as e:
        log("check error:", e)
        return 2
    finally:
        r.close()


def check(r, replay):
    pid, cfg = r.pid, r.cfg
    r.compile()
    built = time.time() - r.t0
    if replay:
        res = r.replay_fails(json.load(open(replay)), cfg.get("times", 0))
        if res:
            print(res[0] + ": " + res[1])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("replay passes")
        return 0
    shards = cfg.get("shards", 8)
    jobs = [r.start(shards, i) for i in range(shards)]
    r.wait(jobs, r.left() - 30)

    violation = None  # (replay, message)
    for j in jobs:
        for f in sorted(glob.glob(os.path.join(j["out"], "fail-*.json"))):
            rep = json.load(open(f))
            if violation is None or len(json.dumps(rep["case"])) < len(json.dumps(violation["case"])):
                violation = rep
    errors = []
    if violation is None:
        for j in jobs:
            rc = j["p"].returncode
            if rc == 0 or j.get("killed") == "other":
                continue
            if j.get("killed") == "time":
                errors.append("time budget used up")
                continue
            hang, cur = r.load(j, "hang.json"), r.load(j, "current.json")
            if rc == -9:
                errors.append("the test process was killed from outside (memory?)")
                continue
            if hang:
                res = r.replay_fails(hang, cfg.get("times", 0), 400)
                if res:
                    violation = dict(hang, message="%s (confirmed in a fresh process: %s)" % (hang["message"], res[1]))
                    break
                errors.append("a case hung once and passed when replayed")
                continue
            err = r.stderr(j)
            if cur is None or r.load(j, "end.json") is not None:
                errors.append("test process failed outside any case (exit code %s):\n%s" % (rc, err[-3000:]))
                continue
            msg = crash_message(err, rc)
            res = None
            for k in range(3):
                res = r.replay_fails(cur, cfg.get("times", 20))
                if res:
                    break
            cur["message"] = "the process died: " + msg
            if res:
                cur["message"] = "%s: %s" % res
                violation = r.shrink(cur, cfg.get("times", 20), res[0])
                break
            if rc in (2, 66) and "/repo/" in msg:
                # a panic, runtime fault or data race with the code under test in the trace is a witness by itself
                violation = cur
                break
            errors.append("a case ended the process once and passed when replayed (exit code %s):\n%s" % (rc, err[-3000:]))

    stats = []
    for j in jobs:
        for f in sorted(glob.glob(os.path.join(j["out"], "stats-*.json"))):
            stats.append(json.load(open(f)))
    listed, seen = findings(), {}
    for s in stats:
        for sig in s["known"] or {}:
            if (pid, sig) in listed:
                seen[sig] = seen.get(sig, 0) + s["known"][sig]
            elif violation is None:
                violation = dict(property=pid, sub=s["sub"], test="", message="unlisted finding " + sig,
                                 case=json.loads(s["known_case"][sig]))
    subs = {}
    for s in stats:
        a = subs.setdefault(s["sub"], dict(evaluations=0, inner=0, nontrivial=0, distinct=0, classes={}, wall_s=0))
        for k in ("evaluations", "inner", "nontrivial", "distinct"):
            a[k] += s[k]
        a["wall_s"] = round(max(a["wall_s"], s["wall_s"]), 2)
        for k, v in s["classes"].items():
            a["classes"][k] = a["classes"].get(k, 0) + v
    samples = []
    for s in stats:
        for c in s["samples"] or []:
            if len(samples) < 6 and sum(x["sub"] == s["sub"] for x in samples) < 2:
                samples.append(dict(sub=s["sub"], case=c))
    ev = dict(property=pid, tier=r.tier, seed=r.seed, level=cfg["level"],
        coverage=dict(evaluations=sum(a["evaluations"] for a in subs.values()),
            distinct_nontrivial=sum(a["distinct"] for a in subs.values()), rule=cfg["rule"], samples=samples,
            sub_checks=subs, inner_evaluations=sum(a["inner"] for a in subs.values()), known_findings_seen=seen),
        assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - r.t0, 2), violations=1 if violation else 0)
    ev["coverage"]["build_s"] = round(built, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)

    for sig in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[(pid, sig)]))
    if violation:
        p = save_replay(pid, violation)
        print(violation["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        for e in errors:
            log("check error:", e)
        return 2
    for name in cfg["subs"]:
        if subs.get(name, {}).get("evaluations", 0) == 0:
            log("check error: sub-check %s ran nothing" % name)
            return 2
    c = ev["coverage"]
    if c["distinct_nontrivial"] == 0:
        log("check error: no non-trivial case was generated")
        return 2
    print("property=%s held on %d cases (%d distinct non-trivial, %d inner evaluations), seed %d, %.1f s" %
          (pid, c["evaluations"], c["distinct_nontrivial"], c["inner_evaluations"], r.seed, time.time() - r.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
