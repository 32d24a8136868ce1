"""Runners for the checks that are not a plain harness binary."""
import concurrent.futures as cf
import itertools
import os
import re
import subprocess


def first_error(text):
    m = re.search(r"^error", text, re.M)
    return text[m.start():m.start() + 4000] if m else text[-4000:]


def refused(ctx, text, why):
    """The base builds, but code that uses it does not."""
    ctx.reports.append(dict(section="build", violations=[dict(case=0, count=1, sig="build: " + why, detail=first_error(text))]))


def sched(ctx, cfg):
    """C18: the library's sources built against scheduling locks, and against
    the real ones; the same programs on both."""
    import check
    run = os.path.join(ctx.verif, "sched", "run")
    exes = {}

    def one(mode):
        e = dict(ctx.env, CARGO_TARGET_DIR=os.path.join(ctx.target, "sched-" + mode))
        # Cargo cannot tell that another tree has come into place.
        mark = os.path.join(ctx.target, "sched-" + mode, "tree")
        tree = open(os.path.join(ctx.target, "repo.sha256")).read()
        if os.path.exists(mark) and open(mark).read() != tree:
            subprocess.run(["cargo", "clean", "--offline", "-p", "oct", "-p", "oct-macros"], cwd=run, env=e, capture_output=True)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + (["--features", "shim"] if mode == "shim" else []), cwd=run, env=e, capture_output=True, text=True)
        if r.returncode == 0:
            open(mark, "w").write(tree)
        return r
    with cf.ThreadPoolExecutor(2) as ex:
        rs = dict(zip(["shim", "real"], ex.map(one, ["shim", "real"])))
    for mode, r in rs.items():
        if r.returncode == 0:
            exes[mode] = os.path.join(ctx.target, "sched-" + mode, "debug", "run")
    if "real" not in exes:
        if not check.base_builds(ctx):
            raise check.NoAnswer("the library does not build")
        return refused(ctx, rs["real"].stderr, "code that encodes shared values does not compile")
    if "shim" not in exes:
        # The stand-ins lack something that the library has come to use: the
        # real locks are still explored.
        ctx.log("the stand-ins do not fit:", first_error(rs["shim"].stderr))
        ctx.reports.append(dict(section="stand-ins", notes=["the library does not build against the scheduling locks; only the real ones were explored"]))
    check.explore(ctx, cfg, exes)


# What in a name shows which feature it needs.
NEEDS = {
    "alloc": set("Box Rc Arc Vec String LinkedList Cow CString".split()),
    "std": set("Map Set HashMap HashSet Mutex RwLock SystemTime LazyLock".split()),
    "proc-macro": set("Unit0 Point Mixed Nest Small Default16 Wide16 SignedI8 SignedI64 Wide32 ReprUsize ReprIsize Lopsided Lopsided2".split()),
}
FLAG = {"alloc": "oa", "std": "os", "proc-macro": "op"}


def needs(name):
    words = set(re.findall(r"\w+", name))
    return frozenset(f for f, s in NEEDS.items() if words & s)


def cleaned(ctx, d, cwd, e):
    """Drops what was built from another tree, which cargo cannot tell."""
    mark = os.path.join(d, "tree")
    tree = open(os.path.join(ctx.target, "repo.sha256")).read()
    if os.path.exists(mark) and open(mark).read() == tree:
        return
    if os.path.exists(d):
        subprocess.run(["cargo", "clean", "--offline", "-p", "oct", "-p", "oct-macros"], cwd=cwd, env=e, capture_output=True)
    os.makedirs(d, exist_ok=True)
    open(mark, "w").write(tree)


def features(ctx, cfg):
    """C17: the library with each subset of its features."""
    import check
    subsets = [frozenset(s) for n in range(4) for s in itertools.combinations(sorted(FLAG), n)]
    label = lambda s: ", ".join(sorted(s)) or "none"
    harness, bare = os.path.join(ctx.verif, "harness"), os.path.join(ctx.verif, "nostd")
    # What is needed of a failing build to tell whose fault it is.
    plain, built, nostd = {}, {}, {}

    def one(s):
        tag = "".join(FLAG[f][1] for f in sorted(s)) or "none"
        d = os.path.join(ctx.target, "feat-" + tag)
        e = dict(ctx.env, CARGO_TARGET_DIR=d)
        cleaned(ctx, d, harness, e)
        cargo = lambda cwd, *a: subprocess.run(["cargo", "build", "--offline", "--quiet", *a], cwd=cwd, env=e, capture_output=True, text=True)
        r = cargo(harness, "--no-default-features", "--features", ",".join(["why"] + [FLAG[f] for f in sorted(s)]), "--bin", "c17")
        built[s] = r
        if r.returncode != 0:
            plain[s] = cargo(ctx.repo, "-p", "oct", "--no-default-features", "--features", ",".join(sorted(s)))
        if "std" not in s:
            nostd[s] = cargo(bare, "--features", ",".join(FLAG[f] for f in sorted(s)))
        return os.path.join(d, "debug", "c17")

    with cf.ThreadPoolExecutor(ctx.jobs) as ex:
        exe = dict(zip(subsets, ex.map(one, subsets)))
    full = frozenset(FLAG)

    def bad(s, sig, detail):
        ctx.reports.append(dict(section="features " + label(s), profile="checked", violations=[dict(case=0, count=1, sig=sig, detail=detail)]))

    if built[full].returncode != 0:
        if plain[full].returncode != 0:
            raise check.NoAnswer("the library does not build")
        return bad(full, "code that uses the public interface does not compile", first_error(built[full].stderr))
    for s in subsets:
        if built[s].returncode != 0:
            why = "the library does not build" if plain[s].returncode != 0 else "something that needs none of the missing features is not there"
            bad(s, f"features {label(s)}: {why}", first_error((plain[s] if plain[s].returncode != 0 else built[s]).stderr))
        if s in nostd and nostd[s].returncode != 0 and not (s in plain and plain[s].returncode != 0):
            bad(s, f"features {label(s)}: cannot be used without the standard library", first_error(nostd[s].stderr))
    ok = [s for s in subsets if built[s].returncode == 0]

    def run(s, *a):
        r = subprocess.run([exe[s], *a], env=ctx.env, capture_output=True, text=True, errors="replace", timeout=600 if not ctx.thorough else 7200, preexec_fn=check.limits(6 << 30))
        return r

    with cf.ThreadPoolExecutor(ctx.jobs) as ex:
        outs = dict(zip(ok, ex.map(run, ok)))
    told = {}
    for s, r in outs.items():
        does, items = {}, {}
        for l in r.stdout.splitlines():
            p = l.split("\t")
            if p[0] == "does":
                does[p[1]] = (int(p[2]), p[3])
            elif p[0] == "item":
                items[p[2]] = (p[1], p[3] == "true")
            else:
                bad(s, f"features {label(s)}: something fails unexpectedly", l)
        told[s] = (does, items)
        if r.returncode < 0 or r.returncode not in (0, 3):
            bad(s, f"features {label(s)}: the process dies", f"exit status {r.returncode}: {r.stderr[-1500:]}")
    if full not in told:
        return
    does, items = told[full]
    for s in ok:
        d, i = told[s]
        n = viol = 0
        rep = dict(section="features " + label(s), profile="checked", violations=[], outcomes={}, samples=[], notes=[])
        for name in does:
            if needs(name) <= s:
                if name not in d:
                    rep["violations"].append(dict(case=0, count=1, sig=f"features {label(s)}: {name} is missing", detail="it needs none of the missing features"))
                    continue
                n += d[name][0]
                if d[name] != does[name]:
                    viol += 1
                    a, b = (run(x, "--dump", name).stdout.splitlines() if viol <= 5 else [] for x in (full, s))
                    diff = next(((x, y) for x, y in itertools.zip_longest(a, b) if x != y), ("?", "?"))
                    rep["violations"].append(dict(case=0, count=1, sig=f"features {label(s)}: {name} does something else than with all features",
                                                  detail=f"with all: {diff[0]}; with {label(s)}: {diff[1]}"))
        for name, (req, has) in i.items():
            n += 1
            if (not req or req in s) and not has:
                rep["violations"].append(dict(case=0, count=1, sig=f"features {label(s)}: {name} does not hold", detail=f"documented for {req or 'every configuration'}"))
        rep.update(evaluations=n, distinct=n, outcomes={"entries that do the same": len([x for x in does if d.get(x) == does[x]]), "items there": sum(h for _, h in i.values())},
                   samples=[f"{label(s)}: {x} {d[x][0]} lines {d[x][1]}" for x in list(d)[:2]])
        ctx.reports.append(rep)


def derive(ctx, cfg):
    """C16: programs with all type definitions of a bounded grammar. C03 has
    only their maximum sizes looked at."""
    import check
    import mkderive
    part = cfg.get("part")
    cwd = os.path.join(ctx.verif, "derive")
    bins, n = mkderive.write(os.path.join(cwd, "src", "bin"), ctx.thorough and not part)
    if part:
        bins = [b for b in bins if b.startswith("shapes")]
    ctx.log(n, "definitions in", len(bins), "programs")
    d = os.path.join(ctx.target, "derive")
    e = dict(ctx.env, CARGO_TARGET_DIR=d)
    cleaned(ctx, d, cwd, e)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--keep-going"] + [a for b in bins for a in ("--bin", b)], cwd=cwd, env=e, capture_output=True, text=True)
    failed = set(re.findall(r'could not compile `derive-grammar` \(bin "(\w+)"\)', r.stderr)) if r.returncode else set()
    if r.returncode:
        if not failed or not check.base_builds(ctx):
            # Not even the harness's own derived types, or not the library.
            if not check.base_builds(ctx):
                raise check.NoAnswer("the library does not build")
            return refused(ctx, r.stderr, "code that uses the derives does not compile")
        why = first_error(r.stderr)
        if re.search(r"signal: 9|memory allocation of|SIGKILL", r.stderr):
            raise check.NoAnswer("the compiler was ended: " + r.stderr[-1500:])
        refused(ctx, why, "definitions for which the derives have to work do not compile")
    env = ctx.env
    if part:
        ctx.env = dict(env, VH_PART=part)
    check.explore(ctx, cfg, {b: os.path.join(d, "debug", b) for b in bins if b not in failed})
    ctx.env = env


def undefined(ctx, cfg):
    """C14: all executions of bounded programs in Miri, which stops at what is
    undefined."""
    import check
    cwd = os.path.join(ctx.verif, "miri")
    d = os.path.join(ctx.target, "miri")
    e = dict(ctx.env, CARGO_TARGET_DIR=d, RUSTUP_TOOLCHAIN="nightly", XDG_CACHE_HOME=os.path.join(ctx.target, "miri-cache"),
             MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation")
    e.pop("MIRI_SYSROOT", None)
    cleaned(ctx, d, cwd, e)
    r = subprocess.run(["cargo", "miri", "setup"], cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode:
        raise check.NoAnswer("Miri's library does not build: " + r.stderr[-2000:])
    base = ["cargo", "miri", "run", "--offline", "--quiet", "--release", "--"] + (["--deep"] if ctx.thorough else [])

    def run(args, timeout):
        try:
            r = subprocess.run(base + args, cwd=cwd, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, "", f"no end after {timeout} s"
        return r.returncode, r.stdout, r.stderr
    rc, out, err = run([], 600)
    if rc != 0:
        if not check.base_builds(ctx):
            raise check.NoAnswer("the library does not build")
        if "could not compile" in err:
            return refused(ctx, first_error(err), "code that uses the library's containers and codecs does not compile")
        raise check.NoAnswer("Miri does not start: " + err[-2000:])
    if ctx.replay:
        import json
        for v in json.load(open(ctx.replay))["violations"]:
            rc, out, err = run(["--section", v["section"], "--choices", str(v["case"])], 3600)
            print(out, err, sep="\n")
            ctx.reports.append(dict(section=v["section"], profile="miri", evaluations=1, violations=[v] if rc != 0 else []))
        return
    # The long ones have a process of their own, and first.
    names = [s for s in out.splitlines() if s]
    long = [s for s in names if not s.startswith(("decode", "encode", "slot of"))]
    short = [s for s in names if s not in long]
    limit = 20000 if ctx.thorough else 700

    def one(group):
        rc, out, err = run(["--section", "|".join(group)], limit)
        reports = [dict(json_line(l), profile="miri") for l in out.splitlines() if l.startswith("REPORT ")]
        for r in reports:
            # Each leaf of a tree of choices is another program.
            r["distinct"] = r["evaluations"] - sum(r["outcomes"].get(k, 0) for k in ("known", "too long"))
            r["samples"] = [f"{r['section']}: {r['evaluations']} programs, all run to their end"]
        if rc == 0:
            return reports, None
        if rc is None:
            return reports, f"{group}: {err}"
        why = re.search(r"^error: (.*)$", err, re.M)
        why = why.group(1) if why else err.strip()[-300:]
        if not why.startswith("Undefined Behavior"):
            return reports, f"{group}: {err[-1500:]}"
        # Again, to say which execution it was.
        _, out, err2 = run(["--trace", "--section", "|".join(group)], limit)
        section = ([l[8:] for l in out.splitlines() if l.startswith("SECTION ")] or [group[0]])[-1]
        case = ([l[5:] for l in out.splitlines() if l.startswith("NEXT ")] or [""])[-1]
        sig = re.sub(r"alloc\d+|<\d+>|0x[0-9a-f]+|\d+", "N", why)
        reports.append(dict(section=section, profile="miri", violations=[dict(case=case, count=1, sig=f"{section}: {sig}", detail=f"choices {case}\n" + err[err.find("error: "):][:3500])]))
        return reports, None
    groups = [[s] for s in long] + [short[i::24] for i in range(24)]
    errors = []
    with cf.ThreadPoolExecutor(check.JOBS) as ex:
        for reports, error in ex.map(one, groups):
            ctx.reports += reports
            if error:
                errors.append(error)
    if errors and not any(r.get("violations") for r in ctx.reports):
        raise check.NoAnswer("\n".join(errors[:10]))


def json_line(l):
    import json
    return json.loads(l[l.index("{"):])
