#!/usr/bin/env python3
"""Build one bounded-exhaustive harness against /repo's working tree, explore
its whole space in parallel shards, replay whatever failed, write the evidence.

  check.py <property> [quick|thorough] [--keep]

exit 0: the property held on everything explored
exit 1: violated ("VIOLATION property=<id> replay=<path>")
exit 2: the check itself could not run (does not build, ...)
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("SCN_REPO", "/repo"))
BUILD = Path(os.environ.get("SCN_VERIF_BUILD", VERIF / "build"))
NPROC = min(8, os.cpu_count() or 8)
sys.path.insert(0, str(VERIF))
from spec import SPEC, BASE_FLAGS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(str(p).encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:16]


def repo_sources():
    out = []
    for d in ("include", "src"):
        out += [p for p in (REPO / d).rglob("*") if p.is_file()]
    return out


def run_cmd(cmd, logf):
    with open(logf, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.call(cmd, stdout=f, stderr=f)


class Lock:
    def __init__(self, p):
        self.p = p

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(prop, sp, tier):
    BUILD.mkdir(exist_ok=True)
    flags = list(sp.get("base", BASE_FLAGS)) + list(sp.get("flags", []))
    if tier == "thorough":
        flags += sp.get("thorough_flags", [])
    cxx = sp.get("cxx", "g++")
    rs = repo_sources()
    harness = VERIF / "mc" / sp["harness"]
    hdrs = list((VERIF / "mc").glob("*.h")) + [VERIF / "mc" / a for a, _ in sp.get("aux", [])] + list((VERIF / "mc" / "model").glob("*"))
    ih = tree_hash(rs, cxx + " ".join(flags))
    hh = tree_hash(rs + hdrs + [harness], cxx + " ".join(flags) + " ".join(sp.get("link", [])))
    impl = BUILD / f"impl-{ih}.o"
    exe = BUILD / f"{prop}-{hh}"
    logf = BUILD / f"{prop}.log"
    logf.write_bytes(b"")
    if exe.exists():
        return exe, logf
    for old in BUILD.glob(f"{prop}-*"):
        old.unlink(missing_ok=True)
    obj = BUILD / f"{prop}-{hh}.{os.getpid()}.o"
    inc = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{VERIF}/mc"]
    hp = subprocess.Popen([cxx, *flags, *inc, "-c", str(harness), "-o", str(obj)],
                          stdout=open(logf, "ab"), stderr=subprocess.STDOUT)
    ok = True
    aux = []
    for src, fl in sp.get("aux", []):  # parts of the harness with flags of their own
        o = BUILD / f"{prop}-{hh}.{os.getpid()}.aux{len(aux)}.o"
        ok = run_cmd([cxx, *fl, *inc, "-c", str(VERIF / "mc" / src), "-o", str(o)], logf) == 0 and ok
        aux.append(o)
    with Lock(BUILD / f"impl-{ih}.lock"):
        if not sp.get("noimpl") and not impl.exists():
            tmp = BUILD / f"impl-{ih}.{os.getpid()}.tmp.o"
            rc = run_cmd([cxx, *flags, *inc, "-c", f"{REPO}/src/scn/impl.cpp", "-o", str(tmp)], logf)
            ok = rc == 0 and ok
            if rc == 0:
                tmp.rename(impl)
    ok = hp.wait() == 0 and ok
    if ok:
        tmp = Path(str(exe) + f".{os.getpid()}.tmp")
        link = [cxx, *[f for f in flags if f.startswith(("-O", "-f", "-g", "-std"))]]
        if "-flto" in flags:
            link = [f for f in link if f != "-flto"] + [f"-flto={NPROC}"]
        link = [f for f in link if f not in sp.get("nolink", [])]
        rc = run_cmd([*link, str(obj), *map(str, aux), *([] if sp.get("noimpl") else [str(impl)]), "-o", str(tmp), *sp.get("link", []), "-lpthread"], logf)
        ok = rc == 0
        if ok:
            tmp.rename(exe)
    for o in [obj, *aux]:
        if o.exists():
            o.unlink()
    if not ok:
        return None, logf
    # drop objects of other trees: disk is limited
    keep = {impl.name}
    olds = sorted(BUILD.glob("impl-*.o"), key=lambda p: p.stat().st_mtime)
    for p in olds[:-8]:
        if p.name not in keep:
            p.unlink(missing_ok=True)
    return exe, logf


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
    "LC_ALL": "C.UTF-8",
    "MALLOC_PERTURB_": "165",
})


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def explore(exe, tier, outdir, stall, deadline):
    """Run all shards; returns (fails, stats, samples, groups, problems)."""
    procs = []
    t0 = time.time()
    for i in range(NPROC):
        out = outdir / f"shard{i}.out"
        sh = outdir / f"shard{i}.sh"
        err = outdir / f"shard{i}.err"
        for f in (out, sh, err):
            f.unlink(missing_ok=True)
        p = subprocess.Popen(
            [str(exe), "--shard", str(i), "--nshards", str(NPROC), "--tier", tier,
             "--out", str(out), "--shared", str(sh), "--maxfails", "200"],
            stdout=open(err, "wb"), stderr=subprocess.STDOUT, env=ENV,
            cwd=outdir, preexec_fn=limits)
        procs.append(dict(i=i, p=p, out=out, sh=sh, err=err, last=None,
                          t=time.time(), state="run"))
    while any(d["state"] == "run" for d in procs):
        time.sleep(0.05)
        for d in procs:
            if d["state"] != "run":
                continue
            rc = d["p"].poll()
            if rc is not None:
                # development aid: go on behind a crashing case
                if rc != 0 and len(d.setdefault("crashes", [])) < int(os.environ.get("MC_RESUME", "0")) \
                        and current(d["sh"]) is not None:
                    d["crashes"].append((current(d["sh"]), d["err"].read_text(errors="replace")[-1500:]))
                    d["p"] = subprocess.Popen(
                        [str(exe), "--shard", str(d["i"]), "--nshards", str(NPROC), "--tier", tier, "--from",
                         str(d["crashes"][-1][0] + 1), "--out", str(d["out"]), "--shared", str(d["sh"]),
                         "--maxfails", "200"],
                        stdout=open(d["err"], "wb"), stderr=subprocess.STDOUT, env=ENV, cwd=outdir, preexec_fn=limits)
                    continue
                d["state"] = "done"
                d["rc"] = rc
                continue
            cur = current(d["sh"])
            if cur != d["last"]:
                d["last"] = cur
                d["t"] = time.time()
            elif time.time() - d["t"] > stall and cur is not None:
                os.killpg(d["p"].pid, signal.SIGKILL)
                d["p"].wait()
                d["state"] = "hang"
            if time.time() - t0 > deadline and d["state"] == "run":
                os.killpg(d["p"].pid, signal.SIGKILL)
                d["p"].wait()
                d["state"] = "timeout"
    return procs


def current(sh):
    try:
        b = sh.read_bytes()[:8]
        v = int.from_bytes(b, "little")
        return v - 1 if v else None
    except OSError:
        return None


def parse_out(path):
    r = dict(fails=[], samples=[], groups={}, notes={}, stats=None, done=False)
    if not path.exists():
        return r
    for line in path.read_text(errors="replace").splitlines():
        if line.startswith("FAIL "):
            parts = line[5:].split("\t", 2)
            if len(parts) == 3:
                r["fails"].append((int(parts[0]), parts[1], parts[2]))
        elif line.startswith("SAMPLE "):
            r["samples"].append(line[7:])
        elif line.startswith("GROUP "):
            g = line[6:].rsplit(" ", 1)
            r["groups"][g[0]] = r["groups"].get(g[0], 0) + int(g[1])
        elif line.startswith("NOTE "):
            k, _, v = line[5:].partition(" ")
            r["notes"][k] = v
        elif line.startswith("STATS "):
            r["stats"] = {k: int(v) for k, v in (kv.split("=") for kv in line[6:].split())}
        elif line == "DONE":
            r["done"] = True
    return r


def replay_case(exe, tier, idx, outdir, stall):
    out = outdir / "replay.out"
    out.unlink(missing_ok=True)
    err = outdir / "replay.err"
    try:
        with open(err, "wb") as e:
            p = subprocess.Popen([str(exe), "--tier", tier, "--only", str(idx), "--out", str(out)],
                                 stdout=e, stderr=subprocess.STDOUT, env=ENV, cwd=outdir,
                                 preexec_fn=limits)
            try:
                rc = p.wait(timeout=stall * 4 + 120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "hang", out.read_text(errors="replace") if out.exists() else ""
    finally:
        pass
    text = out.read_text(errors="replace") if out.exists() else ""
    etext = err.read_text(errors="replace")[-3000:]
    if "FAIL " in text:
        return "fail", text + etext
    if rc != 0 or "DONE" not in text:
        return "crash", text + etext
    return None, text


def known_findings(prop):
    out = {}
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=`([^`]*)` (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    if "--setup" in sys.argv:
        # nothing to prepare beyond the folders: every check builds from /repo
        BUILD.mkdir(exist_ok=True)
        (VERIF / "evidence").mkdir(exist_ok=True)
        return subprocess.call(["g++", "--version"], stdout=subprocess.DEVNULL)
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not args or args[0] not in SPEC:
        log("usage: check.py <property> [quick|thorough]")
        return 2
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    sp = SPEC[prop]
    t0 = time.time()
    # a property can be explored in several configurations of the library
    variants = sp.get("variants", [{}])
    exes = []
    with ThreadPoolExecutor(NPROC) as pool:
        built = list(pool.map(lambda n: build(prop + (f"v{n}" if n else ""), {**sp, **variants[n]}, tier),
                              range(len(variants))))
    for exe, blog in built:
        if exe is None:
            log(f"check {prop}: build failed, see {blog}")
            log("\n".join(l for l in blog.read_text(errors="replace").splitlines() if "error" in l)[:3000])
            return 2
        exes.append(exe)
    tb = time.time() - t0
    outdir = BUILD / f"run-{prop}-{os.getpid()}"
    outdir.mkdir(parents=True, exist_ok=True)
    stall = sp.get("stall", 60)
    procs = []
    for n, exe in enumerate(exes):
        vdir = outdir / f"v{n}"
        vdir.mkdir()
        for d in explore(exe, tier, vdir, stall,
                         sp.get("deadline", 800 if tier == "quick" else 6 * 3600) - (time.time() - t0)):
            d["exe"] = exe
            d["variant"] = n
            procs.append(d)
    fails, stats, samples, groups, notes, problems = [], {}, [], {}, {}, []
    timeout = False
    totals = {}
    for d in procs:
        r = parse_out(d["out"])
        at = {"exe": d["exe"], "dir": d["out"].parent}
        fails += [(*g, at) for g in r["fails"]]
        samples += r["samples"][:3]
        for k, v in r["notes"].items():
            if k.startswith("sum:"):
                notes[k[4:]] = str(int(notes.get(k[4:], 0)) + int(v))
            else:
                notes[k] = v
        for k, v in r["groups"].items():
            groups[k] = groups.get(k, 0) + v
        if r["stats"]:
            for k, v in r["stats"].items():
                if k == "total":
                    totals[d["variant"]] = v
                else:
                    stats[k] = stats.get(k, 0) + v
        for c, t in d.get("crashes", []):
            fails.append((c, "crash", t, at))
            (outdir / f"crash-{c}").write_text(t)
        if d["state"] == "hang":
            fails.append((current(d["sh"]), "hang", "no progress for %d s" % stall, at))
        elif d["state"] == "timeout":
            timeout = True
        elif not (r["done"] and d["rc"] == 0):
            cur = current(d["sh"])
            if cur is None:
                problems.append(f"shard {d['i']} ended with {d['rc']} before its first case: "
                                + d["err"].read_text(errors="replace")[-500:])
            else:
                fails.append((cur, "crash", f"exit {d['rc']}: " + d["err"].read_text(errors="replace")[-1500:], at))
    stats["total"] = sum(totals.values())
    known = known_findings(prop)
    seen_known, real = {}, []
    for f in sorted(fails, key=lambda f: f[0]):
        if f[1] in known:
            seen_known[f[1]] = known[f[1]]
        else:
            real.append(f)
    for k, v in seen_known.items():
        log(f"KNOWN-FINDING: property={prop} {v} [{k}]")
    violations = 0
    rep_path = None
    discarded = []
    for f in real[:5]:
        exe, vdir = f[3]["exe"], f[3]["dir"]
        kind, text = replay_case(exe, tier, f[0], vdir, stall)
        if kind is None:
            # not reproduced on its own: the failure must depend on the cases
            # before it, so repeat the exploration and look for the same case
            procs2 = explore(exe, tier, vdir, stall, 800)
            again = []
            for d in procs2:
                again += [g for g in parse_out(d["out"])["fails"] if g[1] == f[1]]
                if f[1] == "crash" and d["state"] == "done" and d.get("rc") != 0:
                    again.append(f)
            if not again:
                discarded.append(f)
                continue
            text = "only in sequence:\n" + text
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        rep_path = rdir / f"{prop}-{f[0]}.txt"
        rep_path.write_text(
            f"property {prop}, tier {tier}, case {f[0]}\nkey: {f[1]}\n{f[2]}\n\n"
            f"replay: python3 check.py {prop} {tier}; or, after that build,\n"
            f"  {os.path.relpath(exe, VERIF)} --tier {tier} --only {f[0]}\n\n{text}\n")
        violations = len(real)
        log(f"first failing case {f[0]} key={f[1]}: {f[2][:1500]}")
        log(f"VIOLATION property={prop} replay={rep_path}")
        break
    for f in discarded:
        log(f"note: case {f[0]} ({f[1]}) did not fail again, discarded: {f[2][:300]}")
    wall = time.time() - t0
    complete = not timeout and not problems and not any(d["state"] == "hang" for d in procs) \
        and stats.get("ran", 0) == stats.get("total", -1)
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": stats.get("ran", 0),
            "transitions": stats.get("calls", 0),
            "traces_validated_against_impl": stats.get("checks", 0),
            "distinct_outcomes": stats.get("outcomes", 0),
            "exhaustive": bool(complete),
            "groups": groups,
            "rule": sp["rule"],
            "samples": samples[:24],
            "build_s": round(tb, 1),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": sp.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    if notes:
        ev["coverage"]["notes"] = notes
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")
    log(f"{prop} {tier}: executions={stats.get('ran',0)} of {stats.get('total',0)} "
        f"calls={stats.get('calls',0)} checks={stats.get('checks',0)} "
        f"outcomes={stats.get('outcomes',0)} fails={len(real)} "
        f"build={tb:.1f}s wall={wall:.1f}s complete={complete}")
    if "--keep" not in sys.argv:
        shutil.rmtree(outdir)
    if violations:
        return 1
    if problems or timeout:
        log("\n".join(problems) or "deadline reached before the space was exhausted")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
