"""C27: the same run in differently compiled builds, compared answer by answer."""
import concurrent.futures, os, re, subprocess

# flavor -> environment of its runs; the first one is the reference
CONFIGS = {
    "cfg-gcc14-O2": {},
    "cfg-gcc14-O0-assert": {"MALLOC_PERTURB_": "85"},
    "cfg-gcc14-O3-23-uchar": {"MALLOC_PERTURB_": "170"},
    "cfg-gcc14-O1-debug": {},
    "cfg-gcc14-O2-wrap-init": {},
    "cfg-gcc13-O2-ndebug": {},
    "cfg-clang-O2": {"MALLOC_PERTURB_": "1"},
    "cfg-clang-O0-uchar-23": {},
}
FLOAT = re.compile(r"~([^~]*)~")
RTOL = 1e-9


def parse(path, into):
    cur = None
    with open(path, "rb") as f:
        for line in f.read().decode("latin1").split("\n"):
            if line.startswith("#"):
                cur = into.setdefault(line[1:], [])
                cur.clear()
            elif cur is not None:
                cur.append(line)


def same_line(a, b):
    """equal texts, and floating-point results equal to rounding accuracy"""
    if FLOAT.sub("~", a) != FLOAT.sub("~", b):
        return False
    xs, ys = [[float(v) for v in FLOAT.findall(t)] for t in (a, b)]
    scale = max([abs(v) for v in xs + ys if v == v and abs(v) != float("inf")], default=0)
    return all(x == y or (x != x and y != y) or abs(x - y) <= RTOL * scale for x, y in zip(xs, ys))


def compare(ref, got):
    """index of the first line that differs, or None; behind an inexact float the lines that mention Complex are skipped"""
    inexact = False
    for i, (a, b) in enumerate(zip(ref, got)):
        if a == b:
            continue
        if same_line(a, b):
            inexact = True
            continue
        if inexact and ("Complex" in a or "~" in a):
            continue
        return i
    return None if len(ref) == len(got) else min(len(ref), len(got))


def transcripts(run, build, ENV):
    from check import NPROC, NoAnswer, classify, read_crumb
    names = list(CONFIGS)
    src = ["c27_transcript.cpp", "ops_numbers.cpp", "ops_lists.cpp", "ops_others.cpp"]
    exes = {}
    with concurrent.futures.ThreadPoolExecutor(len(names)) as ex:
        futs = {n: ex.submit(build, run.prop, n, src) for n in names}
        for n, f in futs.items():
            exes[n] = f.result()

    def one(n, shard):
        """the cases of one shard in one configuration: case -> lines; a dead case has a line telling how it died"""
        got, frm = {}, []
        path = os.path.join(run.dir, f"{n}-{shard}.txt")
        for attempt in range(60):
            tag = f"{n}-{shard}-{attempt}"
            rc, j, crumb, err = run.exec_one(dict(flavor=n, env=dict(CONFIGS[n], C27_OUT=path)), exes[n], ["--shard", str(shard), "--shards", str(NPROC), "--case-limit", "60", *frm], tag, 600)
            if os.path.exists(path):
                parse(path, got)
            if j is not None:
                if n == names[0]:
                    run.merge(j)
                else:
                    run.hash_files.pop()
                os.path.exists(path) and os.unlink(path)
                return got
            if rc == "timeout":
                raise NoAnswer(f"{n} shard {shard} ran out of time at {crumb}")
            where = f"{crumb['suite']}:{crumb['idx']}"
            got[where] = ["died in " + crumb["op"] + ": " + ("hang" if rc == 77 else classify(err, rc)) + " " + err[:400].replace("\n", " | ")]
            frm = ["--from", where]
        return got  # a long list of deaths is enough to compare

    all_cases = {}
    lines = 0
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = {(n, s): ex.submit(one, n, s) for s in range(NPROC) for n in names}
        for (n, s), f in futs.items():
            all_cases.setdefault(n, {}).update(f.result())
    ref = all_cases[names[0]]
    differing, inexact = 0, 0
    for n in names[1:]:
        for case, r in ref.items():
            g = all_cases[n].get(case)
            if g is None:
                continue  # behind a list of deaths
            lines += len(r)
            if g == r:
                continue
            dead = [x[0].startswith("died in ") for x in (r, g) if x]
            if len(dead) == 2 and all(dead):
                continue  # broken everywhere alike: not a matter of configuration
            i = compare(r, g)
            if i is None:
                inexact += 1
                continue
            differing += 1
            a = r[i] if i < len(r) else "(nothing)"
            b = g[i] if i < len(g) else "(nothing)"
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), 0)
            op = b if b.startswith("died in ") else a
            what = re.sub(r"^died in ", "", op).split(":")[0]
            suite, idx = case.split(":")
            run.add({"suite": suite, "idx": int(idx), "key": f"differs:{what}", "flavor": n,
                     "detail": f"line {i}\n  {names[0]}: {a[:400]}\n  {n}: {b[:400]}\n  from column {k}: {a[max(0, k - 20):k + 60]!r} against {b[max(0, k - 20):k + 60]!r}"})
    run.result["evaluations"] = lines
    verdict_cov = verdicts(run, build) if run.tier == "thorough" and not run.violations else {}
    if not ref or not lines:
        raise NoAnswer("no transcript")
    return {"builds": names, "cases_compared": len(ref), "answers_compared": lines, "cases_differing": differing, "cases_with_inexact_floats": inexact,
            **verdict_cov, "distinct_nontrivial": run.distinct(exes[names[0]])}


def verdicts(run, build):
    """the value oracles of the other properties, in other configurations: what holds in the reference build has to hold there"""
    from check import NPROC, NoAnswer, classify
    from props_config import PROPS
    checked, left_out = {}, []
    for pid in [f"C{i:02}" for i in range(1, 21)]:
        src = PROPS[pid]["runs"][0]["src"]
        bad = {}
        for n in ("cfg-gcc14-O2", "cfg-clang-O0-uchar-23", "cfg-gcc13-O2-ndebug", "cfg-clang-O2"):
            try:
                exe = build("C27" + pid, n, src)
            except NoAnswer as e:
                left_out.append(f"{pid} in {n}: {str(e)[:200]}")
                continue

            def one(s):
                spec = dict(flavor=n, env=CONFIGS[n], scale=0.02)
                rc, j, crumb, err = run.exec_one(spec, exe, ["--shard", str(s), "--shards", str(NPROC), "--case-limit", "300"], f"v{pid}-{n}-{s}", 3000)
                if j is None:
                    return [{"suite": crumb["suite"], "idx": crumb["idx"], "key": f"verdict:{pid}:died:{crumb['op']}", "flavor": n, "detail": ("hang" if rc == 77 else str(rc)) + err[:1000]}], 0
                run.hash_files.pop()
                return [dict(v, key=f"verdict:{pid}:{v['key']}", flavor=n) for v in j["violations"]], j["evaluations"]
            with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(one, range(NPROC)))
            bad[n] = [v for vs, _ in res for v in vs if v["key"].split(":", 2)[2] not in {k["key"] for k in known(pid)}]
            checked[f"{pid} {n}"] = sum(e for _, e in res)
        if bad.get("cfg-gcc14-O2"):
            continue  # broken in the reference build, too: not a matter of configuration
        for n, vs in bad.items():
            for v in vs:
                run.add(v)
    run.result["evaluations"] += sum(checked.values())
    return {"oracle_evaluations_per_property_and_build": checked, "left_out": left_out}


def known(pid):
    from check import load_known
    return list(load_known(pid).values())
