#!/usr/bin/env python3
"""check.py ID        decide one property (VERIF_TIER=quick|thorough)
check.py --setup   build everything

Compiles the crate in /repo together with the harness to LLVM IR, executes the
harness functions of the property symbolically (symx), replays every
counterexample against a native build and writes evidence/ID.json.
Exit status: 0 held, 1 violated (VIOLATION line), 2 no answer."""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
CPUS = max(1, min(8, os.cpu_count() or 1))
IR_FLAGS = "-C no-vectorize-loops -C no-vectorize-slp -C debuginfo=line-tables-only"
SOLVER = os.environ.get("SYMX_SOLVER", "z3 -in")


class NoAnswer(Exception):
    pass


def run(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        tail = r.stdout.decode(errors="replace")[-6000:]
        raise NoAnswer("%s failed in %s\n%s" % (" ".join(cmd), cwd, tail))
    return r.stdout.decode(errors="replace")


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, sub, fs in os.walk(REPO):
        sub[:] = sorted(x for x in sub if x not in ("target", ".git"))
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if f.endswith((".rs", ".toml", ".lock")):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def fresh(target, crate, flags):
    """Forget a previous compilation of the crate under test if its source changed
    (cargo itself only looks at time stamps)."""
    stamp = os.path.join(target, "repo.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now and os.path.isdir(target):
        env = {"CARGO_TARGET_DIR": target}
        subprocess.run(["cargo", "clean", "--offline", "-p", "kdbx-rs"] + flags, cwd=os.path.join(HERE, crate),
                       env={**os.environ, **env}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.unlink(stamp)
    return stamp, now


def build():
    """symx, the IR module and the two replay binaries; returns their paths."""
    os.makedirs(BUILD, exist_ok=True)
    t = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sym_t = os.path.join(BUILD, "symx")
        ir_t = os.path.join(BUILD, "ir")
        rep_t = {"dev": os.path.join(BUILD, "replay-dev"), "release": os.path.join(BUILD, "replay-release")}
        lls = []

        def symx():
            run(["cargo", "build", "--release", "--offline"], os.path.join(HERE, "symx"), {"CARGO_TARGET_DIR": sym_t})

        def ir():
            stamp, now = fresh(ir_t, "harness", ["--release"])
            pattern = os.path.join(ir_t, "release", "deps", "kdbx_harness-*.ll")
            for f in glob.glob(pattern):
                if not os.path.exists(stamp):
                    os.unlink(f)
            env = {"RUSTFLAGS": IR_FLAGS, "CARGO_TARGET_DIR": ir_t}
            cmd = ["cargo", "rustc", "--offline", "--release", "--", "--emit=llvm-ir"]
            run(cmd, os.path.join(HERE, "harness"), env)
            if not glob.glob(pattern):
                # an up-to-date library without its IR: compile the harness again
                run(["cargo", "clean", "--offline", "--release", "-p", "kdbx-harness"], os.path.join(HERE, "harness"), env)
                run(cmd, os.path.join(HERE, "harness"), env)
            lls.extend(sorted(glob.glob(pattern), key=os.path.getmtime))
            if not lls:
                raise NoAnswer("no IR module was produced")
            for f in lls[:-1]:
                os.unlink(f)
            with open(stamp, "w") as fh:
                fh.write(now)

        def rep(kind):
            flags = ["--release"] if kind == "release" else []
            stamp, now = fresh(rep_t[kind], "replay", flags)
            run(["cargo", "build", "--offline"] + flags, os.path.join(HERE, "replay"), {"CARGO_TARGET_DIR": rep_t[kind]})
            with open(stamp, "w") as fh:
                fh.write(now)

        def timed(name, f, *a):
            t0 = time.time()
            f(*a)
            t[name] = round(time.time() - t0, 1)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            todo = [ex.submit(timed, "ir_build_s", ir), ex.submit(timed, "symx_build_s", symx),
                    ex.submit(timed, "replay_dev_build_s", rep, "dev"), ex.submit(timed, "replay_release_build_s", rep, "release")]
        for x in todo:
            x.result()
        # private copies, so that a concurrent check cannot replace them
        work = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        out = {}
        for k, f in (("symx", os.path.join(sym_t, "release", "symx")), ("ll", lls[-1]),
                     ("dev", os.path.join(rep_t["dev"], "debug", "kdbx-replay")),
                     ("release", os.path.join(rep_t["release"], "release", "kdbx-replay"))):
            out[k] = os.path.join(work, k)
            try:
                os.link(f, out[k])
            except OSError:
                shutil.copy2(f, out[k])
    out["work"] = work
    return out, t


def replay(binary, entry, params, log, work, timeout=20):
    f = os.path.join(work, "log.txt")
    with open(f, "w") as fh:
        fh.write("\n".join(log) + "\n")
    try:
        r = subprocess.run([binary, entry, f, ",".join(map(str, params))], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout, []
    obs, end = [], ""
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("O "):
            obs.append(l[2:].rstrip())
        elif l.startswith("END "):
            end = l.split(" ", 2)[2] if l.count(" ") >= 2 else ""
    kind = {0: "done", 100: "check", 101: "panic", 102: "alloc", 110: "mismatch", 111: "assumption"}.get(r.returncode, "crash")
    return kind, end, obs


def merge(out):
    tot, inc, viols, samples, covers, names, ends = {}, {}, [], [], {}, {}, {}
    for f in glob.glob(os.path.join(out, "res.*.json")):
        d = json.load(open(f))
        for k, x in d.items():
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                tot[k] = max(tot.get(k, 0), x) if k in ("max_query_s", "wall") else tot.get(k, 0) + x
        for j, s, n in d["incomplete"]:
            inc[(j, s)] = inc.get((j, s), 0) + n
        for j, k, n in d["ends"]:
            ends[(j, k)] = ends.get((j, k), 0) + n
        for j, k, n in d["covers"]:
            covers[(j, k)] = covers.get((j, k), 0) + n
        for j, k, n, b in d["check_names"]:
            o = names.get((j, k), (0, 0))
            names[(j, k)] = (o[0] + n, o[1] + b)
        viols += d["viols"]
        samples += d["samples"]
    return tot, inc, viols, samples, covers, names, ends


def known_findings(pid):
    r = []
    f = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    r.append(d)
    return r


def check(pid, tier):
    import jobs as J
    t_start = time.time()
    prop = J.CHECKS[pid]
    b, bt = build()
    work = b["work"]
    try:
        return decide(pid, tier, prop, b, bt, work, t_start, J)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, prop, b, bt, work, t_start, J):
    jobs = list(prop["jobs"]) + (list(prop.get("thorough", [])) if tier == "thorough" else [])
    out = os.path.join(work, "out")
    os.makedirs(out)
    budget = J.BUDGET[tier]
    cmd = [b["symx"], "--ll", b["ll"], "--out", out, "--procs", str(CPUS), "--budget", str(budget), "--solver", SOLVER,
           "--root", REPO, "--steps", str(prop.get("steps", 200000000)), "--keep", "60" if tier == "quick" else "300"]
    for j in jobs:
        cmd += ["--job", j]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 300)
    except subprocess.TimeoutExpired:
        raise NoAnswer("the executor did not stop")
    err = r.stderr.decode(errors="replace")
    tot, inc, viols, samples, covers, names, ends = merge(out)
    problems = []
    if r.returncode != 0:
        problems.append("executor status %d: %s" % (r.returncode, err[-1500:]))
    parse = [(j.split(":")[0], [int(x) for x in j.split(":")[1].split(",")] if ":" in j else []) for j in jobs]

    # counterexamples: replay on the real code
    confirmed, unconfirmed = [], []
    known = known_findings(pid)
    for v in sorted(viols, key=lambda v: (not v["real"], v["job"])):
        e, p = parse[v["job"]]
        got = {}
        for prof in ("dev", "release"):
            got[prof] = replay(b[prof], e, p, v["log"], work)[:2]
        bad = {k: g for k, g in got.items() if g[0] in ("check", "panic", "alloc", "hang", "crash")}
        rec = {"entry": e, "params": p, "kind": v["kind"], "what": v["what"], "at": v["at"], "values": v["log"],
               "native": {k: list(g) for k, g in got.items()}}
        (confirmed if bad else unconfirmed).append(rec)
    # sampled paths: native run must observe the same
    ok = bad = skipped = 0
    mism = []
    for s in samples:
        if not s["real"]:
            skipped += 1
            continue
        e, p = parse[s["job"]]
        k, end, obs = replay(b["dev"], e, p, s["log"], work)
        want = [o.rstrip() for o in s["obs"]]
        if k == s["end"] and obs == want:
            ok += 1
        else:
            bad += 1
            mism.append("%s %s: symbolic %s / native %s %s" % (e, p, s["end"], k, end))
    if bad:
        problems.append("translation check: %d of %d sampled paths differ natively, e.g. %s" % (bad, ok + bad, mism[0]))
    for (j, s), n in inc.items():
        problems.append("%s: %s (%d)" % (jobs[j], s, n))
    stopped = json.load(open(os.path.join(out, "root.json")))["stopped_early"] if os.path.exists(os.path.join(out, "root.json")) else False
    if not confirmed and not stopped:
        for i, j in enumerate(jobs):
            if not any(k == (i, "done") for k in ends) and not any(jj == i for (jj, _), n in names.items()):
                problems.append("%s: nothing was checked" % j)
        need = prop.get("covers", {})
        for name, ks in need.items():
            have = {k for (j, k), n in covers.items() if parse[j][0] == name}
            for k in ks:
                if k not in have:
                    problems.append("%s: case %d was never reached" % (name, k))

    cov = json.load(open(os.path.join(out, "coverage.json"))) if os.path.exists(os.path.join(out, "coverage.json")) else {"functions": {}, "files": {}}
    fns = sorted(f for f, c in cov["functions"].items() if c)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": int(tot.get("paths", 0)), "transitions": int(tot.get("insts", 0)),
            "traces_validated_against_impl": ok, "samples": [
                {"job": jobs[s["job"]], "end": s["end"], "values": s["log"][:20]} for s in samples[:5]],
            "what_is_counted": "states: symbolic paths followed to their end, each standing for all values that take it; "
                               "transitions: IR instructions executed symbolically",
            "jobs": len(jobs), "job_list": jobs, "path_forks": int(tot.get("forks", 0)),
            "pruned_paths": int(tot.get("pruned", 0)),
            "assertions_evaluated": int(tot.get("checks", 0)), "assertion_queries": int(tot.get("check_queries", 0)),
            "assertions": {k: sum(n for (j, kk), (n, _) in names.items() if kk == k) for k in sorted({k for _, k in names})},
            "solver": SOLVER, "solver_queries": int(tot.get("queries", 0)), "queries_unsat": int(tot.get("unsat", 0)),
            "queries_sat": int(tot.get("sat", 0)), "queries_unknown": int(tot.get("unknown", 0)),
            "query_cache_hits": int(tot.get("cache_hits", 0)),
            "solver_s": round(tot.get("solver_s", 0), 2), "slowest_query_s": round(tot.get("max_query_s", 0), 2),
            "symbolic_primitive_calls": int(tot.get("prim_sym", 0)), "concrete_primitive_calls": int(tot.get("prim_conc", 0)),
            "counterexamples_replayed": len(confirmed) + len(unconfirmed), "sampled_paths_not_replayed": skipped,
            "functions_encoded": len(fns), "functions": fns,
            "lines_encoded": {f: len(c["covered"]) for f, c in sorted(cov["files"].items()) if c["covered"]},
            "bounds": prop["bounds"], "build": bt,
        },
        "assumptions": J.ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": 0, "violations": [],
    }
    code = 0
    reported = []
    for rec in confirmed:
        hit = next((k for k in known if k["entry"] == rec["entry"] and k["what"] == rec["what"]
                    and k.get("params", rec["params"]) == rec["params"]), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit["text"]))
        else:
            reported.append(rec)
    if reported:
        code = 1
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "%s.replay.json" % pid)
        json.dump(reported, open(path, "w"), indent=1)
        rec = reported[0]
        print("%s: %s(%s) %s: %s" % (pid, rec["entry"], ",".join(map(str, rec["params"])), rec["kind"], rec["what"]))
        for l in rec["values"][:12]:
            print("  " + l[:400])
        for k, g in rec["native"].items():
            print("  native %s: %s %s" % (k, g[0], g[1][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        ev["violations"] = [{"entry": r["entry"], "params": r["params"], "what": r["what"], "values": r["values"][:40]} for r in reported]
    elif unconfirmed or problems:
        code = 2
        for u in unconfirmed[:5]:
            print("%s: not reproduced: %s(%s) %s: %s at %s native %s" % (pid, u["entry"], u["params"], u["kind"], u["what"], u["at"][:300], u["native"]))
        for p in problems[:12]:
            print("%s: no answer: %s" % (pid, p[:1500]))
        ev["coverage"]["problems"] = problems[:20]
    ev["wall_s"] = round(time.time() - t_start, 2)
    write_evidence(pid, ev)
    if code == 0:
        print("%s: held; %d paths, %d assertions, %d solver queries (%d unsat), %.1f s solver, %d paths replayed natively, %.1f s" % (
            pid, ev["coverage"]["states"], ev["coverage"]["assertions_evaluated"], ev["coverage"]["solver_queries"],
            ev["coverage"]["queries_unsat"], ev["coverage"]["solver_s"], ok, ev["wall_s"]))
    return code


def write_evidence(pid, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    f = os.path.join(HERE, "evidence", pid + ".json")
    with open(f + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(f + ".tmp", f)


def main():
    try:
        if sys.argv[1:] == ["--setup"]:
            b, t = build()
            shutil.rmtree(b["work"], ignore_errors=True)
            print("built", t)
            return 0
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        return check(pid, tier)
    except NoAnswer as e:
        print("no answer:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
