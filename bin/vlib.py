"""Machinery shared by every check: build drivers from /repo's working tree, record traces from the real code,
validate them against the TLA+ specification with TLC, model-check the specification itself, write the evidence."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 4)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ABSL = ["-labsl_hash", "-labsl_raw_hash_set", "-labsl_city", "-labsl_low_level_hash"]
INC = os.path.join(REPO, "src/include")
BIN = os.path.join(REPO, "src/pdaaal-bin")
LIBSRC = {"pda": INC + "/pdaaal/internal/PDA.cpp", "reducer": INC + "/pdaaal/internal/Reducer.cpp",
          "nfap": INC + "/pdaaal/parsing/NfaParser.cpp", "parsing": BIN + "/parsing/Parsing.cpp", "main": BIN + "/main.cpp"}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = self.transitions = self.cases = self.lines = 0
        self.samples, self.notes, self.violations = [], {}, []
        self.crashes = 0

    def done(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def sanitizer(ctx):
    """Flags that make a memory error in the code under test a crash instead of a silent wrong value, if they work here."""
    src, exe = os.path.join(ctx.tmp, "san.cpp"), os.path.join(ctx.tmp, "san")
    with open(src, "w") as f:
        f.write("int main() { return 0; }\n")
    ok = sh(["g++", "-fsanitize=address", "-o", exe, src]).returncode == 0 and sh([exe]).returncode == 0
    return ["-fsanitize=address"] if ok else []


def compile_all(ctx, drivers):
    """drivers: {name: dict(src=, defs=[], libs=[library sources], link=[])} -> {name: path}"""
    objs = {}
    vdir = os.path.join(ctx.tmp, "inc")
    os.makedirs(vdir, exist_ok=True)
    with open(os.path.join(vdir, "version.h"), "w") as f:
        f.write('#define PDAAAL_GIT_HASH_STR "verif"\n#define PDAAAL_VERSION_STR "0"\n#define PDAAAL_VERSION "0"\n')
    flags = ["g++", "-std=gnu++20", "-g0", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + HARN, "-I" + HARN + "/shim", "-I" + INC, "-I" + BIN, "-I" + vdir]
    jobs = []
    san = sanitizer(ctx) if any(d.get("san", True) for d in drivers.values()) else []
    for name, d in drivers.items():
        objs[name] = []
        fl = flags + (san if d.get("san", True) else [])
        src = d["src"] if os.path.isabs(d["src"]) else os.path.join(HARN, d["src"])
        o = os.path.join(ctx.tmp, name + ".o")
        jobs.append((fl + d.get("defs", []) + ["-c", "-o", o, src]))
        objs[name].append(o)
    def lib(d, l):
        return os.path.join(ctx.tmp, "lib_%s%s.o" % (l, "_san" if san and d.get("san", True) else ""))
    for o, l in sorted({(lib(d, l), l) for d in drivers.values() for l in d.get("libs", [])}):
        if not os.path.exists(o):
            jobs.append(flags + (san if o.endswith("_san.o") else []) + ["-c", "-o", o, LIBSRC[l]])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode != 0:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    out = {}
    links = []
    for name, d in drivers.items():
        out[name] = os.path.join(ctx.tmp, name)
        links.append(["g++"] + (san if d.get("san", True) else []) + ["-o", out[name]] + objs[name] + [lib(d, l) for l in d.get("libs", [])]
                     + d.get("link", []) + ABSL)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(sh, links):
            if r.returncode != 0:
                raise CheckError("link failed: " + r.stdout[-4000:])
    ctx.notes["build_s"] = round(time.time() - ctx.t0, 1)
    return out


def tlc(module, cfg, metadir, env=None, workers=1, timeout=800, extra=(), heap="2g"):
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + metadir, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", metadir, "-noGenerateSpecTE", *extra, "-config", cfg, module]
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(metadir, ignore_errors=True)
    return r


def tlc_stats(txt):
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", txt.replace(",", "") if False else txt):
        pass
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    d = re.search(r"depth of the complete state graph search is (\d+)", txt)
    return gen, dis, int(d.group(1)) if d else None


_n = [0]


def validate(ctx, module, path):
    """Strict validation of a recorded trace. -> None if accepted, else the 0-based index of the first rejected line."""
    nlines = sum(1 for _ in open(path))
    if nlines == 0:
        return None
    _n[0] += 1
    r = tlc(module + ".tla", "Trace.cfg", os.path.join(ctx.tmp, "md%d" % _n[0]), env={"TRACE": path})
    txt = r.stdout
    gen, dis, depth = tlc_stats(txt)
    if "No error has been found" in txt and depth == nlines + 1:
        ctx.states += dis
        ctx.transitions += gen
        return None
    if "Accepted" in txt and "violated" in txt.lower() or (depth is not None and "No error" not in txt and "Post" in txt):
        if depth is None or depth < 1 or depth > nlines:
            raise CheckError("TLC gave no usable answer on %s:\n%s" % (path, txt[-3000:]))
        ctx.states += dis
        ctx.transitions += gen
        return depth - 1
    # An evaluation error (for example a malformed value in the trace) happens at the line after the last state.
    m = re.findall(r"^/\\ l = (\d+)", txt, re.M)
    if m and "Error:" in txt and "The behavior up to this point is" in txt:
        return int(m[-1]) - 1
    raise CheckError("TLC gave no usable answer on %s:\n%s" % (path, txt[-3000:]))


def split_cases(path):
    """A case starts at a line with a "case" field ("load", "new" or "crash")."""
    cases, cur = [], None
    for line in open(path):
        if '"case":' in line[:60]:
            cur = [line]
            cases.append(cur)
        elif cur is not None:
            cur.append(line)
    return cases


class Run:
    """One family of traces: driver, mode, number of cases, and the trace specification."""

    def __init__(self, driver, mode, module, quick, thorough=None, seed0=None, args=(), lo=0):
        self.driver, self.mode, self.module, self.quick = driver, mode, module, quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.seed0, self.args, self.lo = seed0, list(args), lo

    def n(self, tier):
        return self.quick if tier == "quick" else self.thorough


def drive(ctx, exe, run, lo, hi, out):
    seed = ctx.seed if run.seed0 is None else run.seed0
    env = dict(os.environ, MALLOC_PERTURB_="165", LC_ALL="C")
    env.pop("VERIF_DEBUG", None)
    cmd = [exe, "--mode", run.mode, "--seed", str(seed), "--lo", str(lo), "--hi", str(hi), "--out", out] + run.args
    wd = out + ".d"
    os.makedirs(wd, exist_ok=True)
    try:
        r = sh(cmd, env=env, cwd=wd, timeout=700)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out: " + " ".join(cmd))
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if r.returncode != 0:
        raise CheckError("driver failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-2000:]))


def key_of(ctx, run, case):
    """Identity of a failing input, for the known-findings file: the driver, the mode and the content of the case's first line."""
    return hashlib.sha256((run.driver + "|" + run.mode + "|" + re.sub(r'"case":\d+,?', "", case[0])).encode()).hexdigest()[:16]


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "known":
                    res.setdefault(k["property"], []).append(k)
    return res


def is_known(ctx, run, case, badline):
    for k in ctx.known:
        if k.get("driver") == run.driver and k.get("mode") == run.mode and k.get("key") == key_of(ctx, run, case):
            if k.get("line") is None or json.dumps(json.loads(badline)) == json.dumps(k["line"]):
                return k
    return None


def shard(ctx, exes, run, lo, hi, idx):
    exe = exes[run.driver]
    tr = os.path.join(ctx.tmp, "t%d.ndjson" % idx)
    drive(ctx, exe, run, lo, hi, tr)
    found = []
    total = len(split_cases(tr))
    budget = 6
    path = tr
    while True:
        bad = validate(ctx, run.module, path)
        if bad is None:
            break
        cases, at, n = split_cases(path), None, 0
        for i, c in enumerate(cases):
            if n <= bad < n + len(c):
                at = i
                break
            n += len(c)
        if at is None:
            raise CheckError("rejected line %d of %s is in no case" % (bad, path))
        case, line = cases[at], cases[at][bad - n]
        first = json.loads(case[0])
        kf = is_known(ctx, run, case, line)
        if kf is not None:
            ctx.seen_known[kf["id"]] = kf
        else:
            # Re-run this case alone: the rejection has to repeat (a crash may be a timeout of a busy machine).
            one = tr + ".one"
            cid = first["case"]
            again = None
            for _ in range(2):
                drive(ctx, exe, run, cid, cid + 1, one)
                again = validate(ctx, run.module, one)
                if again is not None:
                    break
            if again is not None or first["ev"] != "crash":
                if again is not None:
                    case = [l for c in split_cases(one) for l in c]
                    line = case[again]
                else:
                    with open(one, "w") as f:
                        f.writelines(case)
                    if validate(ctx, run.module, one) is None:
                        raise CheckError("a rejection did not repeat")
                found.append((run, cid, case, line))
                budget -= 4 if first["ev"] == "crash" else 1
        rest = cases[at + 1:]
        total_left = sum(len(c) for c in rest)
        if budget <= 0 or total_left == 0 or (found and time.time() - ctx.t0 > 300):
            break
        path = tr + ".rest"
        with open(path, "w") as f:
            for c in rest:
                f.writelines(c)
    cases = split_cases(tr)
    ctx.cases += total
    ctx.lines += sum(len(c) for c in cases)
    good = [c for c in cases if len(c) > 1]
    if good and len(ctx.samples) < 3:
        c = max(good[:20], key=lambda c: len(c))
        ctx.samples.append({"driver": run.driver, "mode": run.mode, "lines": [json.loads(x) for x in c[:4]]})
    os.remove(tr)
    return found


def do_runs(ctx, exes, runs):
    """Shards every run over the cores."""
    todo, tot = [], sum(r.n(ctx.tier) for r in runs)
    per = max(20, min(400 if ctx.tier == "quick" else 2000, (tot + NCPU * 2 - 1) // (NCPU * 2)))
    for r in runs:
        n = r.n(ctx.tier)
        p = min(per, getattr(r, "per", per))
        for lo in range(r.lo, r.lo + n, p):
            todo.append((r, lo, min(lo + p, r.lo + n)))
    res = []
    stop, nfound = [False], [0]

    def one(x):
        i, (r, lo, hi) = x
        if stop[0]:
            return []
        f = shard(ctx, exes, r, lo, hi, i)
        nfound[0] += len(f)
        if len(f) >= 4 or nfound[0] >= 6 or (nfound[0] and time.time() - ctx.t0 > 240):
            stop[0] = True
        return f
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for f in ex.map(one, list(enumerate(todo))):
            res += f
    per_run = {}
    for r in runs:
        k = "%s:%s" % (r.driver, r.mode)
        per_run[k] = per_run.get(k, 0) + r.n(ctx.tier)
    ctx.notes["cases_per_run"] = per_run
    return res


def model_check(ctx, mcs):
    """mcs: list of dict(module=, cfg=, workers=, thorough=bool). The specification itself must satisfy its properties."""
    names = []
    for m in mcs:
        if m.get("thorough") and ctx.tier != "thorough":
            continue
        _n[0] += 1
        r = tlc(m["module"] + ".tla", m["cfg"], os.path.join(ctx.tmp, "mc%d" % _n[0]), workers=m.get("workers", NCPU), extra=m.get("extra", ()),
                heap="8g", timeout=m.get("timeout", 700))
        gen, dis, _ = tlc_stats(r.stdout)
        if "No error has been found" not in r.stdout and not (m.get("simulate") and "Finished in" in r.stdout and "Error" not in r.stdout):
            raise CheckError("the specification fails its own model check %s/%s:\n%s" % (m["module"], m["cfg"], r.stdout[-3000:]))
        ctx.states += dis
        ctx.transitions += gen
        names.append({"config": m["cfg"], "states": dis, "transitions": gen})
    if names:
        ctx.notes["model_checked"] = names


def evidence(ctx, level, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.cases,
           "trace_events_validated": ctx.lines, "samples": ctx.samples}
    cov.update(ctx.notes)
    with open(os.path.join(d, ctx.prop + ".json"), "w") as f:
        json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
                   "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}, f, indent=1)


def report(ctx, found):
    d = os.path.join(VERIF, "out", ctx.prop)
    shutil.rmtree(d, ignore_errors=True)
    for k in ctx.seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    for i, (run, cid, case, line) in enumerate(found):
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%d.ndjson" % i)
        with open(p, "w") as f:
            f.writelines(case)
        with open(p + ".txt", "w") as f:
            f.write("driver %s --mode %s --seed %s --lo %d --hi %d %s\nkey %s\nspecification spec/%s.tla rejects:\n%s" %
                    (run.driver, run.mode, ctx.seed if run.seed0 is None else run.seed0, cid, cid + 1, " ".join(run.args), key_of(ctx, run, case), run.module, line))
        print("rejected by %s (driver %s, mode %s, case %d): %s" % (run.module, run.driver, run.mode, cid, line.strip()[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
    ctx.violations = found


def main(table):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = table[prop]
    ctx = Ctx(prop, tier, seed)
    ctx.known = known_findings().get(prop, [])
    ctx.seen_known = {}
    try:
        exes = compile_all(ctx, spec["drivers"])
        model_check(ctx, spec.get("mc", []))
        ctx.notes["model_check_done_s"] = round(time.time() - ctx.t0, 1)
        if "gen" in spec:
            spec["gen"](ctx, exes)
        found = do_runs(ctx, exes, spec["runs"](ctx) if callable(spec["runs"]) else spec["runs"])
        report(ctx, found)
        evidence(ctx, spec.get("level", "model_checking"), spec.get("assumptions", []))
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    finally:
        if os.environ.get("VERIF_KEEP") is None:
            ctx.done()
    print("%s: %s, %d traces (%d events), %d states, %.1f s" % (prop, "VIOLATED" if found else "held", ctx.cases, ctx.lines, ctx.states, time.time() - ctx.t0))
    sys.exit(1 if found else 0)
