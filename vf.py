#!/usr/bin/env python3
"""Runs the check of one property:  vf.py ID [--thorough] [options]

Builds clink's libraries from /repo's working tree and the harness of the property, runs it
under Wine in 8 processes, shrinks and confirms what fails, writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import argparse, fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
WINESERVER = "/usr/lib/wine/wineserver"
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS     # id -> dict(exe=..., shards=..., pre=...)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(exes):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, f"{HERE}/tools/genbuild.py", REPO, BUILD], check=True)
        targets = [f"{BUILD}/bin/{e}" for e in exes]
        r = subprocess.run(["ninja", "-C", BUILD, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-2500:])
            log("build failed")
            sys.exit(2)


class Wine:
    """A private prefix that can reach only the scratch folder (x:), the harness (y:) and /repo (w:)."""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="vf.", dir="/tmp")
        self.prefix = os.path.join(self.root, "prefix")
        self.scratch = os.path.join(self.root, "scratch")
        os.mkdir(self.prefix)
        os.mkdir(self.scratch)
        self.env = {k: v for k, v in os.environ.items() if not k.startswith(("CLINK", "WINE", "=CLINK"))}
        for k in ("DISPLAY", "HOME", "INPUTRC", "LS_COLORS", "PATHEXT", "LUA_PATH", "LUA_INIT", "TZ"):
            self.env.pop(k, None)
        self.env.update(WINEPREFIX=self.prefix, WINEDEBUG="-all", LC_ALL="C.UTF-8", LANG="C.UTF-8", HOME=self.root, TZ="UTC",
                        WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=",
                        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

    def start(self):
        subprocess.run([WINESERVER, "-p"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            subprocess.run(["wineboot", "-i"], env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=240)
        except subprocess.TimeoutExpired:
            pass
        dd = os.path.join(self.prefix, "dosdevices")
        os.makedirs(dd, exist_ok=True)
        for n in os.listdir(dd):
            if n not in ("c:",):
                os.unlink(os.path.join(dd, n))
        os.symlink(self.scratch, os.path.join(dd, "x:"))
        os.symlink(BUILD, os.path.join(dd, "y:"))
        os.symlink(REPO, os.path.join(dd, "w:"))

    def popen(self, exe, args, out):
        return subprocess.Popen(["wine", f"{BUILD}/bin/{exe}", *args], env=self.env, cwd=self.scratch, stdin=subprocess.DEVNULL,
                                stdout=open(out, "wb"), stderr=subprocess.STDOUT, start_new_session=True)

    def run(self, exe, args, out, timeout=300):
        p = self.popen(exe, args, out)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return -1

    def close(self):
        subprocess.run([WINESERVER, "-k"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(20):
            shutil.rmtree(self.root, ignore_errors=True)
            if not os.path.exists(self.root):
                break
            time.sleep(0.25)


def read_json(p):
    try:
        return json.loads(open(p, encoding="utf-8", errors="replace").read())
    except (OSError, ValueError):
        return None


FAILCODES = {76, 77, 78, 79}


class Runner:
    def __init__(self, wine, cid, spec, seed, tier, limit):
        self.w, self.cid, self.spec, self.seed, self.tier, self.limit = wine, cid, spec, seed, tier, limit
        self.n = 0

    def dirs(self, name):
        d = os.path.join(self.w.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def replay(self, exe, sub, choices, full=False):
        """Returns (failed, record)."""
        self.n += 1
        d = self.dirs(f"r{self.n}")
        open(f"{d}/in", "w").write(" ".join(map(str, choices)))
        rc = self.w.run(exe, ["--id", self.cid, "--sub", sub, "--replay", f"x:\\r{self.n}\\in", "--out", f"x:\\r{self.n}\\out",
                              "--scratch", f"x:\\r{self.n}", "--limit", str(self.limit)] + (["-v"] if full else []),
                        f"{d}/stdout", timeout=self.limit + 60)
        rec = read_json(f"{d}/out.fail")
        txt = open(f"{d}/stdout", errors="replace").read() if full else ""
        shutil.rmtree(d, ignore_errors=True)
        return rc in FAILCODES, rec, txt

    def rerun(self, exe, shard, shards, upto, sub, scale):
        self.n += 1
        d = self.dirs(f"r{self.n}")
        rc = self.w.run(exe, ["--id", self.cid, "--sub", sub, "--seed", str(self.seed), "--shard", str(shard), "--shards", str(shards),
                              "--to", str(upto + 1), "--tier", self.tier, "--out", f"x:\\r{self.n}\\out", "--scratch", f"x:\\r{self.n}",
                              "--scale", str(scale), "--limit", str(self.limit), "--shrink-ms", "0"], f"{d}/stdout", timeout=900)
        rec = read_json(f"{d}/out.fail")
        shutil.rmtree(d, ignore_errors=True)
        return rc in FAILCODES and rec and rec.get("case") == upto and rec.get("sub") == sub, rec

    def shrink_external(self, exe, sub, choices, budget=40):
        """For failures that end the process: every attempt is a process of its own."""
        best = list(choices)
        t0 = time.time()
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(best) and time.time() - t0 < budget:
                cand = best[:i] + best[i + k:]
                ok, rec, _ = self.replay(exe, sub, cand)
                if ok and rec:
                    best = rec["choices"] if len(rec["choices"]) <= len(cand) else cand
                else:
                    i += k
            k //= 2
        for i in range(len(best)):
            if time.time() - t0 > budget:
                break
            if i < len(best) and best[i]:
                cand = best[:i] + [0] + best[i + 1:]
                ok, rec, _ = self.replay(exe, sub, cand)
                if ok:
                    best = cand
        return best


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--sub", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--verbose", "-v", action="store_true")
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "") or "1") or "1")
    tier = "thorough" if a.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    spec = CHECKS[a.id]
    exe = spec["exe"]
    shards = spec.get("shards", 8)
    limit = spec.get("limit", 60)
    cap = spec.get("cap", {"quick": 240, "thorough": 1500}[tier])
    wine = Wine()
    try:
        pid = os.fork()
        if pid == 0:            # the prefix is made while the build runs
            wine.start()
            os._exit(0)
        try:
            if not a.no_build:
                build([exe])
        finally:
            os.waitpid(pid, 0)
        t_build = time.time() - t0
        run = Runner(wine, a.id, spec, seed, tier, limit)
        if a.replay:
            rec = json.load(open(a.replay))
            if rec.get("mode") == "rerun":
                f, r = run.rerun(exe, rec["shard"], rec["shards"], rec["case"], rec["sub"], rec["scale"])
                print(json.dumps(r, indent=1))
            else:
                f, r, txt = run.replay(exe, rec["sub"], rec["choices"], full=True)
                print(txt)
                if r:
                    print(r["kind"], r["message"])
            return 1 if f else 0

        procs = []
        for s in range(shards):
            d = run.dirs(f"s{s}")
            args = ["--id", a.id, "--seed", str(seed), "--shard", str(s), "--shards", str(shards), "--tier", tier, "--out", f"x:\\s{s}\\out",
                    "--scratch", f"x:\\s{s}", "--cap", str(cap), "--limit", str(limit), "--scale", str(a.scale)]
            if a.sub:
                args += ["--sub", a.sub]
            if a.verbose and s == 0:
                args += ["-v"]
            procs.append((s, d, wine.popen(exe, args, f"{d}/stdout")))
        results, fails, errors = [], [], []
        for s, d, p in procs:
            try:
                rc = p.wait(cap + 10 * limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = -1
            if a.verbose and s == 0:
                print(open(f"{d}/stdout", errors="replace").read())
            r = read_json(f"{d}/out.json")
            if r:
                results.append(r)
            if rc in FAILCODES:
                f = read_json(f"{d}/out.fail")
                if f:
                    fails.append((s, f, read_json(f"{d}/out.orig")))
                else:
                    errors.append(f"shard {s}: exit {rc} without a failure record")
            elif rc != 0 or not r:
                errors.append(f"shard {s}: exit {rc}: " + open(f"{d}/stdout", errors="replace").read()[-500:])
        # A process that ended without writing anything (killed, or died so badly that no handler ran).
        violation, notes, unreproduced = None, [], []
        for s, f, orig in sorted(fails, key=lambda x: len(x[1]["choices"])):
            if f["kind"] == "startup" and not f["sub"]:
                # fails before any case; deterministic if all shards do
                violation = dict(property=a.id, sub="", mode="startup", choices=[], message=f["message"], shard=s, shards=shards, case=0, scale=a.scale, seed=seed)
                continue
            choices = f["choices"]
            times = sum(run.replay(exe, f["sub"], choices)[0] for _ in range(3))
            if times < 3 and orig and orig["choices"] != choices:
                t2 = sum(run.replay(exe, f["sub"], orig["choices"])[0] for _ in range(3))
                if t2 == 3:
                    times, choices = 3, orig["choices"]
            if times == 3:
                if f["kind"] != "fail":
                    choices = run.shrink_external(exe, f["sub"], choices)
                    ok, rec, _ = run.replay(exe, f["sub"], choices)
                    if ok and rec:
                        f = rec
                violation = dict(property=a.id, mode="case", sub=f["sub"], seed=seed, choices=choices, kind=f["kind"], message=f["message"], notes=f["notes"])
                break
            # It may need the cases before it.
            case = (orig or f)["case"]
            again = 0
            for _ in range(3):
                ok, rec = run.rerun(exe, s, shards, case, f["sub"], a.scale)
                again += bool(ok)
                if not ok:
                    break
            if again == 3:
                violation = dict(property=a.id, mode="rerun", sub=f["sub"], seed=seed, shard=s, shards=shards, case=case, scale=a.scale,
                                 choices=choices, kind=f["kind"], message=f["message"], notes=f["notes"])
                break
            unreproduced.append(f"{f['sub']} {f['kind']}: {f['message'][:300]}")
        # Merge.
        subs = {}
        known = {}
        for r in results:
            for x in r["subs"]:
                y = subs.setdefault(x["sub"], dict(rule=x["rule"], evaluations=0, distinct_nontrivial=0, planned=0, discards=0, labels={}, samples=[]))
                y["evaluations"] += x["evals"]
                y["distinct_nontrivial"] += x["nontrivial"]
                y["planned"] += x["planned"]
                y["discards"] += x["discards"]
                for k, v in x["labels"].items():
                    y["labels"][k] = y["labels"].get(k, 0) + v
                y["samples"] += x["samples"][:2]
                y["ms"] = max(y.get("ms", 0), x["ms"])
            for k, v in r["known"].items():
                known[k] = known.get(k, 0) + v
        ev = dict(property=a.id, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=sum(y["evaluations"] for y in subs.values()),
                                distinct_nontrivial=sum(y["distinct_nontrivial"] for y in subs.values()),
                                rule="; ".join(f"[{k}] {y['rule']}" for k, y in subs.items()),
                                samples=[f"[{k}] {s}" for k, y in subs.items() for s in y["samples"][:3]] or ["(none)"],
                                labels={f"{k}.{l}": n for k, y in subs.items() for l, n in sorted(y["labels"].items())},
                                per_sub={k: {x: y[x] for x in ("evaluations", "distinct_nontrivial", "planned", "discards", "ms")} for k, y in subs.items()},
                                cut_short=any(r["capped"] for r in results), known_finding_hits=known, unreproduced=unreproduced),
                  assumptions=spec.get("assumptions", ["the MinGW/Wine build of the sources in /repo behaves as clink does"]),
                  wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
        ev["coverage"]["build_s"] = round(t_build, 1)
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        tmp = f"{HERE}/evidence/.{a.id}.{os.getpid()}"
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, f"{HERE}/evidence/{a.id}.json")
        for k, y in subs.items():
            log(f"{a.id}.{k}: {y['evaluations']} cases, {y['distinct_nontrivial']} distinct non-trivial, {y['discards']} discarded, {y['ms']/1000:.1f} s; {dict(sorted(y['labels'].items()))}")
        for u in unreproduced:
            log("not reproduced:", u)
        if violation:
            os.makedirs(f"{HERE}/replays", exist_ok=True)
            path = f"{HERE}/replays/{a.id}.json"
            json.dump(violation, open(path, "w"), indent=1)
            print(f"{violation.get('kind')}: {violation['message']}")
            print((violation.get("notes") or "")[:3000])
            print(f"VIOLATION property={a.id} replay={path}", flush=True)
            return 1
        if errors:
            for e in errors:
                log("ERROR", e)
            return 2
        kf = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"known: property=(\w+) (.*)", l)
                if m and m.group(1) == a.id:
                    print(f"KNOWN-FINDING: property={a.id} {m.group(2)}")
        log(f"{a.id}: held on {ev['coverage']['evaluations']} cases; build {t_build:.1f} s, total {time.time()-t0:.1f} s")
        return 0
    finally:
        wine.close()


sys.exit(main())
