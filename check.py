#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: run the monitors that decide one property against /repo's working tree.

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken; exit 2: no answer.
check.py --replay FILE re-runs the case of a replay file and prints its history.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props_config import PROPS, FLAVORS  # noqa: E402

NPROC = os.cpu_count() or 8
HARNESS = os.path.join(VERIF, "harness")


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sha(paths, extra):
    h = hashlib.sha256()
    h.update(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources():
    return sorted(glob.glob(os.path.join(REPO, "sources", "*")))


def build(prop, flavor, srcs, extra=()):
    """compile the harness from /repo's current headers; cached by the content of everything that goes in"""
    fl = FLAVORS[flavor]
    cmd = [fl["cxx"], *fl["flags"], *extra, "-I", os.path.join(REPO, "sources"), "-I", HARNESS]
    deps = sources() + sorted(glob.glob(os.path.join(HARNESS, "*.hpp"))) + [os.path.join(HARNESS, s) for s in srcs + ["mon.cpp"]]
    key = sha(deps, json.dumps([cmd, srcs, fl.get("link", [])]))
    base = os.path.join(VERIF, "build")
    out = os.path.join(base, f"{prop}-{flavor}-{key}")
    exe = os.path.join(out, "harness")
    if os.path.exists(exe):
        return exe
    os.makedirs(base, exist_ok=True)
    def age(d):  # another check may be removing it
        try:
            return os.path.getmtime(d)
        except OSError:
            return 0
    old = sorted(glob.glob(os.path.join(base, f"{prop}-{flavor}-*")), key=age)
    for d in old[:-4]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=base)
    try:
        def cc(s):
            o = os.path.join(tmp, os.path.basename(s) + ".o")
            r = subprocess.run([*cmd, "-c", os.path.join(HARNESS, s), "-o", o], capture_output=True, text=True, timeout=800)
            return o, r
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(cc, srcs + ["mon.cpp"]))
        for o, r in res:
            if r.returncode != 0:
                raise NoAnswer("compilation failed:\n" + r.stderr[-6000:])
        r = subprocess.run([fl["cxx"], *fl["flags"], *[o for o, _ in res], "-o", os.path.join(tmp, "harness"), *fl.get("link", [])], capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            raise NoAnswer("link failed:\n" + r.stderr[-4000:])
        for o, _ in res:
            os.unlink(o)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:abort_on_error=0:handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
}


def read_crumb(path):
    try:
        b = open(path, "rb").read()
        s = lambda x: x.split(b"\0")[0].decode("latin1")
        return {"suite": s(b[:64]), "idx": int.from_bytes(b[64:72], "little"), "op": s(b[72:136]), "state": s(b[136:152])}
    except Exception:
        return {"suite": "?", "idx": 0, "op": "?", "state": "?"}


def classify(err, rc):
    if "hard rss limit exhausted" in err:
        return "rss-limit"
    m = re.search(r"ERROR: AddressSanitizer: (?:SEGV|ABRT|FPE|BUS|ILL)?\s*([\w-]*)", err)
    if m and "AddressSanitizer: ABRT" not in err:
        t = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err).group(1)
        return "asan-" + t
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        t = re.sub(r"-?\d+|0x[0-9a-f]+|'[^']*'", "", m.group(1))
        return "ubsan-" + "-".join(re.findall(r"[a-z]+", t)[:6])
    if "WARNING: ThreadSanitizer: " in err:
        return "tsan-" + re.search(r"WARNING: ThreadSanitizer: ([\w ]+?)(?: \(|\n)", err).group(1).strip().replace(" ", "-")
    if rc == 96 and "==" in err:
        t = re.search(r"==\d+== ([A-Z][^\n]*)", err)
        return "memcheck-" + "-".join(re.findall(r"[A-Za-z]+", t.group(1))[:6]) if t else "memcheck"
    if "Assertion" in err and "failed" in err:
        return "assertion"
    if "terminate called" in err:
        return "terminate"
    if rc < 0:
        return "signal-" + signal.Signals(-rc).name
    return f"exit-{rc}"


class Run:
    def __init__(self, prop, tier, seed, workdir):
        self.prop, self.tier, self.seed, self.dir = prop, tier, seed, workdir
        self.violations = []  # dicts key, detail, suite, idx, flavor
        self.known_hits = {}
        self.result = {"evaluations": 0, "cases": {}, "ops": {}, "counts": {}, "samples": {}}
        self.hash_files = []
        self.incidents = []
        self.known = load_known(prop)
        self.deadline = time.time() + (780 if tier == "quick" else 6 * 3600)

    def add(self, v):
        if v["key"] in self.known:
            self.known_hits[v["key"]] = v
        else:
            self.violations.append(v)

    def merge(self, j):
        r = self.result
        r["evaluations"] += j["evaluations"]
        for k in ("cases", "ops", "counts"):
            for n, c in j[k].items():
                r[k][n] = r[k].get(n, 0) + c
        for n, s in j["samples"].items():
            r["samples"].setdefault(n, [])
            r["samples"][n] = (r["samples"][n] + s)[:2]

    def cmd(self, spec, exe, extra):
        c = [*spec.get("wrapper", []), exe, "--seed", str(self.seed), "--tier", self.tier, "--scale", str(spec.get("scale", 1)), *spec.get("args", []), *extra]
        return c

    def exec_one(self, spec, exe, extra, tag, timeout):
        out, crumb, hs, err = (os.path.join(self.dir, tag + e) for e in (".json", ".crumb", ".hash", ".err"))
        for p in (out, crumb, hs):
            if os.path.exists(p):
                os.unlink(p)
        env = dict(os.environ, **ENV, **spec.get("env", {}))
        with open(err, "wb") as ef, open(os.path.join(self.dir, tag + ".out"), "wb") as of:
            p = subprocess.Popen(self.cmd(spec, exe, ["--out", out, "--crumb", crumb, "--hashes", hs, *extra]), stdout=of, stderr=ef, env=env, cwd=self.dir)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
        j = None
        if rc in (0, 1) and os.path.exists(out):
            j = json.load(open(out))
            self.hash_files.append(hs)
        etext = open(err, "rb").read().decode("latin1")
        return rc, j, read_crumb(crumb), etext

    def shard(self, spec, exe, n, shards, name):
        extra = ["--shard", str(n), "--shards", str(shards)]
        frm = []
        for attempt in range(50):
            tag = f"{name}-{n}-{attempt}"
            rc, j, crumb, err = self.exec_one(spec, exe, extra + frm, tag, max(10, self.deadline - time.time()))
            if j is not None:
                self.merge(j)
                for v in j["violations"]:
                    if not spec.get("only_crashes") or v["key"].startswith(("crash:", "hang:", "alien")):
                        self.add(dict(v, flavor=name))
                return
            if rc == "timeout":
                raise NoAnswer(f"shard {n} of {name} ran out of wall time at {crumb}")
            where = f"{crumb['suite']}:{crumb['idx']}"
            kind = "hang" if rc == 77 else classify(err, rc)
            # hangs and memory-pressure deaths are confirmed alone, with more time
            if kind in ("hang", "rss-limit") or kind == "signal-SIGKILL":
                rc2, j2, c2, e2 = self.exec_one(spec, exe, ["--only", where, "--case-limit", str(spec.get("confirm", 60))], tag + "c", 300)
                kind2 = "hang" if rc2 == 77 else None if j2 is not None else "timeout" if rc2 == "timeout" else classify(e2, rc2)
                if j2 is not None:  # not reproduced: inconclusive, go on behind the case
                    for v in j2["violations"]:
                        self.add(dict(v, flavor=name))
                    self.incidents.append(f"{kind} at {where} not reproduced alone")
                    frm = ["--from", where]
                    continue
                if kind2 == "signal-SIGKILL" or kind2 == "timeout":
                    raise NoAnswer(f"{kind} then {kind2} at {where}")
                kind, err = kind2, e2
            key = f"hang:{crumb['op']}" if kind == "hang" else f"crash:{crumb['op']}:{kind}"
            v = {"suite": crumb["suite"], "idx": crumb["idx"], "key": key, "detail": err[:3000], "flavor": name}
            self.add(v)
            if key not in self.known:
                return
            frm = ["--from", where]
        raise NoAnswer("too many crashes")

    def run_spec(self, spec):
        name = spec["flavor"] + spec.get("tag", "")
        exe = build(spec.get("as", self.prop), spec["flavor"], spec["src"], spec.get("defs", ()))
        shards = spec.get("shards", NPROC)
        with concurrent.futures.ThreadPoolExecutor(shards) as ex:
            for f in [ex.submit(self.shard, spec, exe, n, shards, name) for n in range(shards)]:
                f.result()
        return exe

    def distinct(self, exe):
        files = [f for f in self.hash_files if os.path.exists(f)]
        if not files:
            return 0
        r = subprocess.run([exe, "--merge", *files], capture_output=True, text=True, env=dict(os.environ, **ENV))
        if r.returncode != 0:
            raise NoAnswer("merge failed " + r.stderr)
        return int(r.stdout)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    return {k["key"]: k for k in json.load(open(path))["known"] if k["property"] == prop}


def write_replay(prop, v, tier, seed, n):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{n}.json")
    json.dump({"property": prop, "tier": tier, "seed": seed, **v, "replay_cmd": f"python3 {VERIF}/check.py --replay {p}"}, open(p, "w"), indent=1)
    return p


def main():
    if sys.argv[1] == "--selftest":
        for fl in FLAVORS.values():
            if not shutil.which(fl["cxx"]):
                log("missing compiler", fl["cxx"])
                return 1
        log("ok", len(PROPS), "properties,", len(sources()), "headers")
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        cfg = PROPS[r["property"]]
        if "custom" in cfg and r["flavor"].startswith("custom"):
            log(json.dumps(r, indent=1))
            return 0
        for spec in cfg["runs"]:
            if spec["flavor"] + spec.get("tag", "") == r["flavor"]:
                exe = build(spec.get("as", r["property"]), spec["flavor"], spec["src"], spec.get("defs", ()))
                return subprocess.run([*spec.get("wrapper", []), exe, "--seed", str(r["seed"]), "--tier", r["tier"], "--only", f"{r['suite']}:{r['idx']}"], env=dict(os.environ, **ENV, **spec.get("env", {}))).returncode
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    if not sources():
        log("no sources in", REPO)
        return 2
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"run-{prop}-", dir=os.path.join(VERIF, "build"))
    run = Run(prop, tier, seed, work)
    try:
        distinct = 0
        exe = None
        specs = [s for s in cfg.get("runs", []) if tier in s.get("tiers", ("quick", "thorough"))]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:  # all builds at once; run_spec finds them made
            for s, f in [(s, ex.submit(build, s.get("as", prop), s["flavor"], s["src"], s.get("defs", ()))) for s in list(specs)]:
                try:
                    f.result()
                except NoAnswer as e:
                    if not s.get("optional"):
                        raise
                    specs.remove(s)
                    run.incidents.append(f"left out {s['src']}: {str(e)[:300]}")
        for spec in specs:
            exe = run.run_spec(spec)
            if run.violations:
                break
        if exe:
            distinct = run.distinct(exe)
        extra_cov = {}
        if "custom" in cfg and not run.violations:
            import custom
            extra_cov = getattr(custom, cfg["custom"])(run, build, ENV) or {}
            distinct += extra_cov.pop("distinct_nontrivial", 0)
        if run.result["evaluations"] == 0:
            raise NoAnswer("nothing was observed")
        samples = [f"[{k}] {s}" for k, v in sorted(run.result["samples"].items()) for s in v][:40]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
            "coverage": {
                "evaluations": run.result["evaluations"],
                "distinct_nontrivial": distinct,
                "rule": cfg["rule"],
                "samples": samples,
                "cases_per_suite": run.result["cases"],
                "operations_observed": run.result["ops"],
                "observed_counts": run.result["counts"],
                "builds": [s["flavor"] + s.get("tag", "") for s in specs],
                "known_findings_seen": sorted(run.known_hits),
                "incidents": run.incidents,
                **extra_cov,
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len({v["key"] for v in run.violations}),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        if not run.violations:
            log(f"NO ANSWER property={prop}: {e}")
            return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for k, v in sorted(run.known_hits.items()):
        log(f"KNOWN-FINDING: property={prop} {run.known[k]['what']}")
    if run.violations:
        shown = set()
        for v in run.violations:
            if v["key"] in shown or len(shown) >= 5:
                continue
            p = write_replay(prop, v, tier, seed, len(shown))
            shown.add(v["key"])
            log(f"VIOLATION property={prop} replay={p}")
            log(f"  {v['key']} at {v['suite']}:{v['idx']} [{v['flavor']}]")
            log("  " + v["detail"].strip().replace("\n", "\n  ")[:1500])
        return 1
    log(f"HELD property={prop} evaluations={run.result['evaluations']} distinct={distinct} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("NO ANSWER", e)
        sys.exit(2)
