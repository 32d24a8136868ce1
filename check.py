#!/usr/bin/env python3
"""Runs one of the checks: check.py CNN [--thorough] [--replay FILE]

Builds the check's binary against /repo's working tree (with and without
debug assertions), runs all of its sections in parallel child processes,
aggregates their reports, writes evidence/CNN.json and prints the verdict.

Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

JOBS = min(8, os.cpu_count() or 8)


class NoAnswer(Exception):
    pass


class Ctx:
    """What a runner needs, and what it leaves for the evidence."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.verif = VERIF
        self.repo = REPO
        self.target = TARGET
        self.env = env(tier)
        self.reports = []
        self.start = time.time()
        self.jobs = JOBS

    def log(self, *a):
        print(*a, file=sys.stderr, flush=True)


def env(tier):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, VERIF_TIER=tier, CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTC_BOOTSTRAP"):
        e.pop(k, None)
    return e


def source_hash():
    h = hashlib.sha256()
    for top in ("oct", "oct-macros"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def fresh(ctx):
    """Makes sure that nothing built from another tree is taken for current:
    cargo looks at modification times only."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha256")
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        if old is not None:
            for prof in ([], ["--release"]):
                subprocess.run(["cargo", "clean", "--offline", "-p", "oct", "-p", "oct-macros"] + prof, cwd=HARNESS, env=ctx.env, capture_output=True)
        open(stamp, "w").write(now)
    return now


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def build(ctx, binary):
    def one(args):
        # Separate target folders, so that the profiles build side by side.
        e = dict(ctx.env, CARGO_TARGET_DIR=os.path.join(TARGET, "rel" if args else "dbg"))
        return subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", binary, *CHECKS[ctx.prop].get("build_args", [])] + args, cwd=HARNESS, env=e, capture_output=True, text=True)
    with cf.ThreadPoolExecutor(2) as ex:
        rs = list(ex.map(one, [[], ["--release"]]))
    for r in rs:
        if r.returncode != 0:
            errs = "\n".join(l for l in r.stderr.splitlines() if not l.startswith("warning"))[-4000:]
            if CHECKS[ctx.prop].get("interface") and base_builds(ctx):
                first = next((l for l in r.stderr.splitlines() if l.startswith("error")), "error")
                ctx.reports.append(dict(section="build", violations=[dict(case=0, count=1, sig="build: code that uses the public interface does not compile", detail=first + "\n" + errs)]))
                return None
            raise NoAnswer("the harness does not build:\n" + (r.stderr[r.stderr.find("error"):])[:6000])
    return {"checked": os.path.join(TARGET, "dbg/debug", binary), "release": os.path.join(TARGET, "rel/release", binary)}


def base_builds(ctx):
    e = dict(ctx.env, CARGO_TARGET_DIR=os.path.join(TARGET, "base"))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=REPO, env=e, capture_output=True, text=True)
    return r.returncode == 0


def run_section(ctx, exe, section, extra=(), timeout=None, mem=3 << 30):
    cmd = [exe, "--section", section, "--hang", str(CHECKS[ctx.prop].get("hang", 60)), *extra]
    try:
        r = subprocess.run(cmd, env=ctx.env, capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=limits(mem))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), ""


def handle(ctx, prof, exe, section, mem):
    t = time.time()
    limit = 3 * 3600 if ctx.thorough else 600
    rc, out, err = run_section(ctx, exe, section, timeout=limit, mem=mem)
    rep = None
    if rc == 0:
        rep = json.loads(out.strip().splitlines()[-1])
    elif rc == 97:
        n = json.loads(out.strip().splitlines()[-1])["hang"]
        # Confirm it on its own before calling it a hang.
        rc2, out2, _ = run_section(ctx, exe, section, ["--only", str(n)], timeout=limit, mem=mem)
        if rc2 == 97:
            rep = dict(section=section, violations=[dict(case=n, count=1, sig=f"{section}: does not terminate", detail="a call makes no progress")])
        else:
            raise NoAnswer(f"{section} ({prof}): hung at case {n} but not again (exit {rc2})")
    elif rc == 98 or rc == "timeout":
        raise NoAnswer(f"{section} ({prof}): {rc}: {err[-1500:]}")
    else:
        # The process died: find the case, and show that it dies again.
        os.makedirs(os.path.join(TARGET, "trace"), exist_ok=True)
        tr = os.path.join(TARGET, "trace", f"{os.getpid()}-{abs(hash((prof, section)))}")
        rc2, out2, err2 = run_section(ctx, exe, section, ["--trace", tr], timeout=limit, mem=mem)
        n = int(open(tr).read() or 0) if os.path.exists(tr) else 0
        if os.path.exists(tr):
            os.remove(tr)
        rc3, _, err3 = run_section(ctx, exe, section, ["--only", str(n)], timeout=limit, mem=mem)
        if rc2 in (0, 97, 98, "timeout") :
            raise NoAnswer(f"{section} ({prof}): died with {rc} once, then {rc2}: {err[-1500:]}")
        desc = (err3 or err2).strip()[-1500:]
        alone = "" if rc3 == rc2 else f" (alone: {rc3})"
        rep = dict(section=section, violations=[dict(case=n, count=1, sig=f"{section}: the process dies", detail=f"exit status {rc2}{alone}: {desc}")])
    rep["profile"] = prof
    rep["wall_s"] = round(time.time() - t, 2)
    return rep


def standard(ctx, cfg):
    exes = build(ctx, cfg["bin"])
    if exes is None:
        return
    explore(ctx, cfg, {p: exes[p] for p in cfg.get("profiles", ["checked", "release"])})


def explore(ctx, cfg, exes):
    """Runs all sections of all executables, or only what a replay names."""
    if ctx.replay:
        for v in json.load(open(ctx.replay))["violations"]:
            if v["profile"] not in exes:
                continue
            rc, out, err = run_section(ctx, exes[v["profile"]], v["section"], ["--only", str(v["case"])], timeout=3600, mem=cfg.get("mem", 3 << 30))
            print(err, out, sep="\n")
            bad = rc != 0 or json.loads(out.strip().splitlines()[-1])["violations"]
            ctx.reports.append(dict(section=v["section"], profile=v["profile"], evaluations=1, violations=[v] if bad else []))
        return
    todo = []
    for prof, exe in exes.items():
        r = subprocess.run([exe, "--list"], env=ctx.env, capture_output=True, text=True, errors="replace", timeout=120)
        if r.returncode != 0:
            raise NoAnswer(f"--list failed ({r.returncode}): {r.stderr[-2000:]}")
        todo += [(prof, exe, s) for s in r.stdout.splitlines() if s]
    mem = cfg.get("mem", 3 << 30)
    errors = []
    with cf.ThreadPoolExecutor(cfg.get("jobs", JOBS)) as ex:
        futs = [ex.submit(handle, ctx, p, x, s, mem) for p, x, s in todo]
        listed = known(ctx.prop)
        for f in cf.as_completed(futs):
            try:
                ctx.reports.append(f.result())
            except cf.CancelledError:
                continue
            except NoAnswer as x:
                errors.append(str(x))
            # Enough is known once something has failed and time runs out.
            if not ctx.thorough and time.time() - ctx.start > 240 and any(v["sig"] not in listed for r in ctx.reports for v in r.get("violations", [])):
                for g in futs:
                    g.cancel()
    if errors and not any(r.get("violations") for r in ctx.reports):
        raise NoAnswer("\n".join(errors[:10]))
    for e in errors:
        ctx.log("no answer from", e)


def known(prop):
    """Listed findings of the property: signature -> description."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: property=" + prop + " "):
                sig, _, desc = line[len("known: property=" + prop + " "):].partition(" | ")
                out[sig.strip()] = desc.strip()
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    cfg = CHECKS[prop]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ctx = Ctx(prop, tier)
    start = time.time()
    ctx.replay = args[args.index("--replay") + 1] if "--replay" in args else None
    try:
        tree = fresh(ctx)
        for runner in cfg.get("runners", [standard]):
            runner = standard if runner == "standard" else runner
            runner(ctx, cfg)
    except NoAnswer as x:
        print(f"ERROR property={prop}: {x}")
        return 2

    if ctx.replay:
        bad = [v for r in ctx.reports for v in r.get("violations", [])]
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0

    # Aggregate.
    listed = known(prop)
    total = dict(evaluations=0, distinct=0, states=0, transitions=0, traces=0)
    outcomes, samples, notes, viols, found, distinct = {}, [], set(), [], {}, {}
    for r in sorted(ctx.reports, key=lambda r: (r.get("profile", ""), r["section"])):
        for k in total:
            if k != "distinct":
                total[k] += r.get(k, 0)
        # The same case in both profiles is one distinct case.
        distinct[r["section"]] = max(distinct.get(r["section"], 0), r.get("distinct", 0))
        for k, n in r.get("outcomes", {}).items():
            outcomes[k] = outcomes.get(k, 0) + n
        samples.append(r.get("samples", []))
        notes.update(r.get("notes", []))
        for v in r.get("violations", []):
            v = dict(v, section=r["section"], profile=r.get("profile", ""))
            if v["sig"] in listed:
                found.setdefault(v["sig"], v)
            else:
                viols.append(v)
    total["distinct"] = sum(distinct.values())
    # Samples from sections spread over the whole run.
    picked = []
    step = max(1, len(samples) // 12)
    for s in samples[::step]:
        picked += s[:2]
    picked = picked[:24] or ["(none)"]

    cov = dict(sections=len(ctx.reports), outcomes=outcomes, samples=picked, source_tree=tree, bounds=cfg.get("bounds", ""))
    if notes:
        cov["notes"] = sorted(notes)[:60]
    level = cfg["level"]
    if level == "model_checking":
        cov.update(states=total["states"], transitions=total["transitions"], traces_validated_against_impl=total["traces"])
        if total["evaluations"]:
            cov.update(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"])
    else:
        cov.update(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"])
    cov["rule"] = cfg["rule"]
    cov["exhaustive"] = True
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - start, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for sig, v in sorted(found.items()):
        print(f"KNOWN-FINDING: property={prop} {sig}: {listed[sig]}")
    slow = sorted(ctx.reports, key=lambda r: -r.get("wall_s", 0))[:5]
    if os.environ.get("VERIF_SECTIONS"):
        for r in sorted(ctx.reports, key=lambda r: -r.get("wall_s", 0)): ctx.log(f"{r.get('wall_s', 0):8.2f} {r.get('evaluations', 0):9} {r.get('profile')} {r['section']}")
    ctx.log("slowest:", [(r["section"], r.get("profile"), r.get("wall_s")) for r in slow])
    ctx.log(f"{prop} {tier}: {total} in {ev['wall_s']} s")
    if not viols:
        if total["evaluations"] + total["transitions"] == 0:
            print(f"ERROR property={prop}: nothing was explored")
            return 2
        print(f"OK property={prop}: held on everything explored")
        return 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "replay", f"{prop}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, source_tree=tree, violations=viols[:50]), f, indent=1)
    seen = set()
    for v in viols:
        if v["sig"] not in seen and len(seen) < 8:
            seen.add(v["sig"])
            print(f"  {v['sig']} [{v['section']} {v['profile']} case {v['case']}, {v['count']} times]: {v['detail'][:600]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
