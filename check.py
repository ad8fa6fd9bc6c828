#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree; see DESIGN.md.

Builds the harness against /repo, runs its generated cases, writes evidence/PROPERTY.json.
Exit 0: held on everything explored (listed known findings aside); 1: VIOLATION; 2: no answer.
"""
import array, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
JOBS = 8
BEGIN = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = 12  # times the cases of the quick tier

# Property -> cases per build flavour in the quick tier. chk: debug assertions, optimised;
# rel: as shipped; dev: as built while developing; asan: AddressSanitizer; miri: interpreted.
PLAN = {
    "C01": {"chk": 80_000, "chk:small": 40_000, "rel": 40_000, "chk:churn": 1_000, "chk:crowded": 2_500},
    "C02": {"chk": 60_000, "chk:small": 40_000, "rel": 30_000, "chk:types": 40_000, "chk:crowded": 2_500, "chk:masses": 200, "rel:sets": 2},
    "C03": {"chk": 50_000, "chk:small": 40_000, "rel": 25_000, "chk:types": 40_000, "chk:crowded": 2_500, "rel:sets": 2},
    "C04": {"chk": 60_000, "chk:small": 40_000, "rel": 30_000, "chk:crowded": 2_500, "chk:masses": 200, "rel:sets": 2},
    "C05": {"chk": 60_000, "chk:small": 40_000, "rel": 30_000, "dev:many": 160, "rel:many": 400, "chk:crowded": 2_500},
    "C06": {"chk": 60_000, "chk:small": 40_000, "rel": 30_000, "chk:crowded": 2_500, "chk:masses": 200, "rel:sets": 2},
    "C07": {"chk": 120_000, "chk:small": 50_000, "rel": 60_000, "chk:crowded": 2_500, "chk:masses": 200},
    "C08": {"chk": 80_000, "chk:small": 40_000, "rel": 40_000, "chk:crowded": 2_500, "chk:masses": 200, "rel:sets": 2},
    "C09": {"chk": 100_000, "chk:small": 40_000, "rel": 60_000, "chk:crowded": 2_500},
    "C10": {"chk": 60_000, "chk:small": 50_000, "chk:crowded": 2_500},
    "C11": {"chk": 30_000, "rel": 16_000},
    "C12": {"chk": 300_000, "rel": 160_000},
    "C13": {"chk": 400_000, "rel": 200_000, "chk:churn": 1_000},
    "C14": {"chk": 400_000, "rel": 200_000},
    "C15": {"chk": 80_000, "chk:small": 40_000, "rel": 40_000, "chk:crowded": 2_500, "chk:masses": 200},
    "C16": {"chk": 9_000, "rel": 7_000, "chk:masses": 250},
    "C17": {"derive": 30_000},
    "C18": {"chk": 40_000, "chk:small": 40_000, "rel": 20_000, "chk:crowded": 2_000, "asan": 16_000, "miri": 96, "miri:small": 600, "miri:bare": 216},
    "C20": {"borrows": 40_000},
    "C19": {"chk": 40_000, "chk:small": 20_000, "rel": 20_000, "chk:apart": 5_000, "chk:crowded": 400},
}
# flavours whose cases are text for the compiler
TEXTS = {"derive", "borrows"}
ASSUMPTIONS = [
    "The generated cases stay inside the domains DESIGN.md states; absence of violations is shown for them only.",
    "rustc, the standard library and the harness's reference models are trusted.",
]


class NoAnswer(Exception):
    pass


def environment():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    for k in [k for k in e if k.startswith("CARGO_PROFILE_")]:
        e.pop(k)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["RUST_BACKTRACE"] = "0"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1"
    return e


ENV = environment()
NIGHTLY = dict(ENV, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu")
# Aliasing models are experimental and not what C18 states; everything else Miri knows is on.
MIRI = dict(NIGHTLY, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows")


def run(cmd, timeout, env=ENV, cwd=HARNESS):
    """(exit code, stdout, stderr); the whole process group is ended with the command."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise NoAnswer(f"no end after {timeout} s: {' '.join(cmd)}")
    return p.returncode, out, err


def build(flavour, bin="pbt"):
    """The program's path (for miri: nothing)."""
    dir = os.path.join(TARGET, flavour)
    if flavour == "miri":
        case = os.path.join(OUT, "empty.case")
        open(case, "w").write("property C18\n")
        cmd, env, exe = ["cargo", "miri", "run", "--offline", "--target-dir", dir, "--bin", "pbt", "--", "exec", "--file", case], MIRI, None
    elif flavour == "asan":
        cmd = ["cargo", "build", "--offline", "--profile", "asan", "--target-dir", dir, "--bin", bin, "--target", "x86_64-unknown-linux-gnu"]
        env, exe = dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=address"), os.path.join(dir, "x86_64-unknown-linux-gnu/asan", bin)
    else:
        cmd, env, exe = ["cargo", "build", "--offline", "--profile", flavour, "--target-dir", dir, "--bin", bin], ENV, os.path.join(dir, {"dev": "debug"}.get(flavour, flavour), bin)
    rc, _, err = run(cmd, 600, env)
    if rc != 0:
        raise NoAnswer(f"the harness does not build ({flavour}):\n" + err[max(err.find("\nerror"), 0):][:4000])
    return exe


def work_dir(name):
    d = os.path.join(OUT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def random_cases(prop, flavour, variant, exe, cases, salt):
    """(statistics, violation message)"""
    name = flavour + (f"-{variant}" if variant else "")
    d = work_dir(name)
    replay = os.path.join(OUT, f"{prop}-{name}.case")
    seed = SEED * 1000 + salt
    cmd = [exe, "run", "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--jobs", str(JOBS), "--dir", d]
    cmd += ["--out", f"{d}/out.json", "--hashes", f"{d}/hashes", "--replay", replay]
    if variant:
        cmd += ["--variant", variant]
    if flavour == "asan":
        cmd += ["--asan", "yes"]
    rc, out, err = run(cmd, 7200 if TIER == "thorough" else 600)
    if rc == 10:
        with open(replay, "a") as f:
            f.write(f"# replay: {exe} exec --file {replay}\n")
        return None, out.splitlines()[0] if out else "", replay
    if rc != 0:
        raise NoAnswer(f"{name}: exit {rc}\n{out}\n{err[-4000:]}")
    s = json.load(open(f"{d}/out.json"))
    h = array.array("Q")
    h.frombytes(open(f"{d}/hashes", "rb").read())
    s.update(build=flavour, seed=seed, hashes=h)
    if variant:
        s["variant"] = variant
    return s, None, None


def miri_file(prop, f):
    if TIER != "thorough" and time.time() - BEGIN > 600:
        return "not run"  # a slow machine: the rest is left out, see `evaluations`
    cmd = ["cargo", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--bin", "pbt", "--", "exec", "--prop", prop, "--file", f]
    rc, out, err = run(cmd, 3600 if TIER == "thorough" else 600, MIRI)
    if rc == 0:
        return None
    ub = re.search(r"error: (Undefined Behavior: .*)", err)
    if rc == 10 or ub:
        at = [int(n) for n in re.findall(r"^case (\d+)$", err, re.M)]
        where = re.findall(r"--> (\S*/repo/\S+|\S*src/\S+:\d+)", err[ub.start():] if ub else "")
        return (at[-1] if at else 0), (ub.group(1) + (f" at {where[0]}" if where else "")) if ub else out.strip().splitlines()[-1]
    raise NoAnswer(f"miri: exit {rc}\n{err[-3000:]}")


def split_cases(text):
    out = []
    for l in text.splitlines():
        if l.startswith("cfg"):
            out.append([])
        out[-1].append(l)
    return out


def miri_cases(prop, variant, exe, cases, salt):
    """Generated cases, cut short, under the interpreter."""
    d = work_dir("miri" + (f"-{variant}" if variant else ""))
    seed = SEED * 1000 + salt
    rc, text, err = run([exe, "gen", "--prop", prop, "--seed", str(seed), "--from", "0", "--to", str(cases), "--ops", "24" if variant == "bare" else "16"] + (["--variant", variant] if variant else []), 120)
    if rc != 0:
        raise NoAnswer("gen: " + err)
    all = split_cases(text)
    start, files, step = time.time(), [], 24 if variant else 6
    for i in range(0, len(all), step):
        f = f"{d}/{i}.case"
        open(f, "w").write("\n".join("\n".join(c) for c in all[i:i + step]) + "\n")
        files.append((i, f))
    found, left_out = None, set()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        todo = {ex.submit(miri_file, prop, f): i for i, f in files}
        try:
            for t in concurrent.futures.as_completed(todo):
                r = t.result()
                if r == "not run":
                    left_out.add(todo[t])
                elif r:
                    found = all[todo[t] + r[0]], r[1]
                    break
        finally:
            for t in todo:
                t.cancel()
    if found:
        case, message = found
        # fewer operations
        end, k = time.time() + 90, len(case) - 1
        while k > 0 and time.time() < end:
            less = case[:k] + case[k + 1:]
            open(f"{d}/try.case", "w").write("\n".join(less) + "\n")
            try:
                r = miri_file(prop, f"{d}/try.case")
            except NoAnswer:
                r = None
            if r and r != "not run":
                case, message = less, r[1]
            k -= 1
        replay = os.path.join(OUT, f"{prop}-miri.case")
        open(replay, "w").write(f"# {prop} violated under Miri, seed {seed}\n# {message}\nproperty {prop}\n" + "\n".join(case) + "\n"
            + f"# replay in {HARNESS}: MIRIFLAGS='{MIRI['MIRIFLAGS']}' cargo +nightly miri run --offline --target-dir target/miri --bin pbt -- exec --file {replay}\n")
        return None, message, replay
    all = [c for i, c in enumerate(all) if i // step * step not in left_out]
    texts = {"\n".join(c) for c in all}
    return {"build": "miri", "seed": seed, "evaluations": len(all), "operations": sum(len(c) - 1 for c in all), "distinct": len(texts),
            "wall_s": round(time.time() - start, 1)}, None, None


def derive_cases(prop, command, exe, cases, salt):
    """Generated text for the compiler: item definitions (derive), programs (borrows)."""
    d = work_dir(command)
    dir = os.path.join(TARGET, "chk")
    rc, out, err = run(["cargo", "build", "--offline", "--profile", "chk", "--target-dir", dir, "--bin", "derive", "--message-format", "json"], 600)
    lib = None
    for l in out.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "division_ecs":
            lib = next(f for f in m["filenames"] if f.endswith(".rlib"))
    if rc != 0 or not lib:
        raise NoAnswer("the library does not build: " + err[-3000:])
    replay = os.path.join(OUT, f"{prop}.rs")
    seed = SEED * 1000 + salt
    cmd = [exe, command, "--seed", str(seed), "--cases", str(cases), "--jobs", str(JOBS), "--dir", d, "--ext", lib, "--deps", os.path.dirname(lib)]
    rc, out, err = run(cmd + ["--replay", replay, "--out", f"{d}/out.json"], 3600)
    if rc == 10:
        return None, out.splitlines()[0], replay
    if rc != 0:
        raise NoAnswer(f"{command}: exit {rc}\n{out}\n{err[-4000:]}")
    s = json.load(open(f"{d}/out.json"))
    s.update(build=command, seed=seed)
    return s, None, None


def known_findings(prop):
    """Lines `known: property=ID match=REGEX what`; the file also records repairs (`fixed: ...`)."""
    k = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
        if m and m.group(1) == prop:
            k.append((re.compile(m.group(2)), m.group(3)))
    return k


def main():
    global OUT
    prop = sys.argv[1]
    if prop == "--setup":
        # checks run in copies of their own and build what they need; this shows that it builds
        OUT = os.path.join(VERIF, "out", "setup")
        os.makedirs(OUT, exist_ok=True)
        build("chk")
        return 0
    plan = PLAN[prop]
    OUT = os.path.join(VERIF, "out", prop)
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    start = time.time()
    factor = THOROUGH if TIER == "thorough" else 1
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    flavours = sorted({k.split(":")[0] for k in plan} - TEXTS | ({"chk"} if "miri" in plan else set()))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        built = {f: ex.submit(build, f) for f in flavours}
        for k in TEXTS & set(plan):
            built[k] = ex.submit(build, "chk", "derive")
        exes = {f: b.result() for f, b in built.items()}
    stats, violation = [], None
    for n, (k, cases) in enumerate(plan.items()):
        flavour, _, variant = k.partition(":")
        cases = max(min(8, cases), int(cases * factor * scale))
        if flavour in TEXTS:
            s, message, replay = derive_cases(prop, flavour, exes[flavour], cases, n)
        elif flavour == "miri":
            s, message, replay = miri_cases(prop, variant, exes["chk"], cases, n)
        else:
            s, message, replay = random_cases(prop, flavour, variant, exes[flavour], cases, n)
        if s is None:
            for m, what in known_findings(prop):
                if m.search(message):
                    print(f"KNOWN-FINDING: property={prop} {what}")
                    break
            else:
                violation = (flavour, message, replay)
                break
        else:
            stats.append(s)
            print(f"{k}: {s['evaluations']} cases held ({s['wall_s']} s)", flush=True)
    distinct = set()
    other = 0
    events = {}
    for s in stats:
        h = s.pop("hashes", None)
        if h is not None:
            distinct.update(h)
        elif "distinct_nontrivial" in s:
            other += s["distinct_nontrivial"]
        for e, c in s.pop("events", {}).items():
            t = events.setdefault(e, {})
            for a, b in c.items():
                t[a] = t.get(a, 0) + b
    rule = next((s["rule"] for s in stats if s.get("rule")), "")
    if not TEXTS & set(plan):
        rule = ("Random sequences of operations from the generator of the property (DESIGN.md), run against the library and a reference model. "
                "Non-trivial, if in the case happened: " + rule + ". Distinct by configuration and operations. Cases run under Miri are not counted as non-trivial.")
    coverage = {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": len(distinct) + other,
        "rule": rule,
        "samples": sum((s.pop("samples", []) for s in stats), [])[:8],
        "events": dict(sorted(events.items())),
        "runs": [{k: v for k, v in s.items() if k != "rule"} for s in stats],
    }
    evidence = {
        "property": prop, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": "exploration", "coverage": coverage,
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - start, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if violation:
        flavour, message, replay = violation
        print(f"{prop} ({flavour}): {message}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    print(f"{prop} held: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print(f"ERROR: {e}", file=sys.stderr)
        sys.exit(2)
