#!/usr/bin/env python3
"""check.py ID [quick|thorough]        decide one property of /repo's working tree (see DESIGN.md)
   check.py --replay FILE               re-run the failing input saved in FILE (prints what fails)
   check.py --build ID                  only build

Builds the property's harness from /repo's current sources, runs it in several worker processes under VERIF_SEED, confirms
any failure by replaying it, writes /verif/evidence/<ID>.json.  Exit 0: held on everything explored; 1: VIOLATION; 2: error.
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KIGUMI_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS  # noqa: E402

BASE = ["-DBOOST_CONTAINER_DYN_LINK", "-DBOOST_CONTAINER_NO_LIB", "-DCGAL_USE_GMPXX=1", "-DNDEBUG", "-std=c++20",
        "-I" + REPO + "/include", "-I" + VERIF + "/shim", "-I" + VERIF + "/src", "-include", VERIF + "/shim/kigumi_compat.h", "-w"]
LIBS = ["-lboost_container", "-lgmpxx", "-lmpfr", "-lgmp", "-lpthread"]
NCPU = max(2, len(os.sched_getaffinity(0)))


def log(*a):
    print(*a, flush=True)


class Build_error(Exception):
    pass


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Build_error(" ".join(cmd) + "\n" + p.stdout[-6000:])


def build(pid, cfg, tier):
    out = os.path.join(BUILD, pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    objs, links = {}, []
    for b in cfg["bins"]:
        if b.get("tier", tier) != tier:
            continue
        san = b.get("san", "")
        flags = BASE + ["-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=%d" % b.get("backend", 3)] + b.get("flags", [])
        opt = [b.get("opt", "-O1")]
        sf = []
        if san:
            sf = ["-fsanitize=" + san, "-fno-sanitize-recover=undefined", "-g1"]
        lo = []
        sources = [f for s in b["src"] for f in (sorted(glob.glob(s.replace("$REPO", REPO))) if "*" in s else [s.replace("$REPO", REPO)])]
        for src in sources:
            if not src.startswith("/"):
                src = os.path.join(VERIF, "src", src)
            o = os.path.join(out, b["name"] + "." + os.path.basename(src) + ".o")
            objs[o] = ["clang++"] + opt + flags + sf + ["-c", src, "-o", o]
            lo.append(o)
        links.append(["clang++"] + sf + lo + ["-o", os.path.join(out, b["name"])] + b.get("libs", []) + LIBS)
        if tier == "thorough" and "fuzz" in b:
            # The same program as a libFuzzer target; only the code under test guides the search.
            ff = sf + ["-fsanitize=fuzzer-no-link", "-fsanitize-coverage-allowlist=" + VERIF + "/tools/fuzz.allow", "-DPBT_LIBFUZZER", "-Dmain=pbt_main"]
            fo = [o + ".fuzz" for o in lo]
            for o in lo:
                cmd = list(objs[o])
                objs[o + ".fuzz"] = cmd[:-4] + ff + cmd[-4:-1] + [o + ".fuzz"]
            links.append(["clang++"] + sf + ["-fsanitize=fuzzer"] + fo + ["-o", os.path.join(out, b["name"] + ".fuzz")] + b.get("libs", []) + LIBS)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run_cc, objs.values()))
        list(ex.map(run_cc, links))
    return out


def sanitizer_env(env):
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:report_signal_unsafe=0:suppressions=" + VERIF + "/tools/tsan.supp"
    return env


def replay_once(binary, file, env, tmp, cpu):
    try:
        p = subprocess.run([binary, "replay", file, "--tmp", tmp, "--cpu-limit", str(cpu)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, timeout=400)
    except subprocess.TimeoutExpired:
        return True, "timed out"
    return p.returncode == 1, p.stdout.decode("utf-8", "replace")


def confirm(cfg, b, binary, file, kind, env, tmp, cpu):
    """A failure is reported only if the saved input fails again (3 times; schedule-dependent ones: at least once in 30)."""
    if kind == "hang":
        return replay_once(binary, file, env, tmp, cpu)[0]
    n = sum(replay_once(binary, file, env, tmp, cpu)[0] for _ in range(3))
    if n == 3:
        return True
    if not cfg.get("schedule") and not b.get("schedule"):
        return n > 0
    if n > 0 or kind not in ("hang", "crash"):
        return True
    t0 = time.time()
    for _ in range(30):
        if replay_once(binary, file, env, tmp, cpu)[0]:
            return True
        if time.time() - t0 > 120:
            break
    return False


def fuzz(b, sub, seconds, out, seed, env, tmp, cpu, replay_dir, pid):
    """Coverage-guided search (libFuzzer) over the choices of one sub-property; returns (numbers for the evidence, violation or None)."""
    max_len = b.get("fuzz_max_len", 4096)
    plain, target = os.path.join(out, b["name"]), os.path.join(out, b["name"] + ".fuzz")
    corpus, found = os.path.join(tmp, "corpus"), os.path.join(tmp, "found")
    os.makedirs(corpus)
    os.makedirs(found)
    e = dict(env)
    e["KIGUMI_TMP"] = tmp
    subprocess.run([plain, "seeds", "--sub", sub, "--n", "300", "--seed", str(seed), "--max-len", str(max_len), "--out", corpus, "--tmp", tmp,
                    "--tier", "thorough"], env=e, stdout=subprocess.DEVNULL, timeout=300, check=True)
    n_seeds = len(os.listdir(corpus))
    procs, t0 = [], time.time()
    for w in range(NCPU):
        wt = os.path.join(tmp, "f%d" % w)
        os.makedirs(wt)
        e = dict(env)
        e.update({"KIGUMI_TMP": wt, "PBT_SUB_NAME": sub, "PBT_STATS": os.path.join(wt, "stats")})
        cmd = [target, corpus, "-max_total_time=%d" % seconds, "-seed=%d" % (seed * 1000 + w + 1), "-max_len=%d" % max_len, "-timeout=%d" % (2 * cpu),
               "-rss_limit_mb=3500", "-reload=1", "-print_final_stats=1", "-artifact_prefix=" + os.path.join(found, "w%d-" % w), "-use_value_profile=%d" % (w % 2),
               "-len_control=%d" % (100 if w < 4 else 0), "-detect_leaks=0", "-verbosity=1"]
        procs.append(subprocess.Popen(cmd, env=e, cwd=wt, stdout=subprocess.DEVNULL, stderr=open(os.path.join(wt, "err"), "w")))
    while any(p.poll() is None for p in procs):
        time.sleep(0.2)
        if time.time() - t0 > seconds + 3 * cpu or os.listdir(found):
            for p in procs:
                if p.poll() is None:
                    p.kill()
    num = {"cases": 0, "discarded": 0, "nontrivial": 0, "evals": 0, "labels": {}, "seeds": n_seeds, "corpus": len(os.listdir(corpus)),
           "seconds": round(time.time() - t0, 1), "features": 0, "covered": 0}
    for w in range(NCPU):
        wt = os.path.join(tmp, "f%d" % w)
        try:
            st = json.load(open(os.path.join(wt, "stats")))
            for k in ("cases", "discarded", "nontrivial", "evals"):
                num[k] += st[k]
            for k, v in st["labels"].items():
                num["labels"][k] = num["labels"].get(k, 0) + v
        except Exception:
            pass
        for l in open(os.path.join(wt, "err"), errors="replace"):
            q = l.split()
            if l.startswith("#") and "cov:" in q and "ft:" in q:
                num["covered"] = max(num["covered"], int(q[q.index("cov:") + 1]))
                num["features"] = max(num["features"], int(q[q.index("ft:") + 1]))
    bad = None
    for a in sorted(os.listdir(found)):
        r = os.path.join(tmp, "fuzz.replay")
        p = subprocess.run([plain, "from-bytes", "--sub", sub, "--in", os.path.join(found, a), "--replay", r, "--tmp", tmp, "--tier", "thorough", "--cpu-limit",
                            str(cpu)], env=env, stdout=subprocess.PIPE, timeout=900)
        if p.returncode == 1 and replay_once(plain, r, env, tmp, cpu)[0]:
            dst = os.path.join(replay_dir, "%s.%s.replay" % (pid, sub))
            with open(dst, "w") as g:
                g.write("# %s %s\n" % (pid, b["name"]))
                g.write(open(r).read())
            kind, _, msg = p.stdout.decode("utf-8", "replace").partition("\n")
            bad = (dst, {"name": sub, "kind": kind, "msg": "(found by the coverage-guided search) " + msg})
            break
        num["not_reproduced"] = num.get("not_reproduced", 0) + 1
    if not bad and num["cases"] == 0 and not num.get("not_reproduced"):
        raise RuntimeError("the coverage-guided search of %s did not run\n%s" % (sub, open(os.path.join(tmp, "f0", "err"), errors="replace").read()[-2000:]))
    return num, bad


def main():
    if sys.argv[1:2] == ["--replay"]:
        with open(sys.argv[2]) as f:
            hdr = f.readline().split()
        pid, bname = hdr[1], hdr[2]
        cfg = CHECKS[pid]
        out = build(pid, cfg, "quick" if not [b for b in cfg["bins"] if b["name"] == bname and b.get("tier") == "thorough"] else "thorough")
        b = [b for b in cfg["bins"] if b["name"] == bname][0]
        with tempfile.TemporaryDirectory(prefix="kgm-") as tmp:
            env = sanitizer_env(dict(os.environ))
            env.update({"KIGUMI_BUILD": out, "KIGUMI_TMP": tmp})
            bad, txt = replay_once(os.path.join(out, bname), sys.argv[2], env, tmp, b.get("cpu", 100))
        log(txt)
        return 1 if bad else 0
    if sys.argv[1:2] == ["--build"]:
        build(sys.argv[2], CHECKS[sys.argv[2]], os.environ.get("VERIF_TIER", "quick"))
        return 0

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[pid]
    t0 = time.time()
    out = build(pid, cfg, tier)
    t_build = time.time() - t0
    log("%s: built in %.1f s" % (pid, t_build))

    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    budget = cfg.get("budget", {}).get(tier, 300 if tier == "quick" else 600)
    subs, order, violation, fuzzed = {}, [], None, {}
    unconfirmed = []
    bins = [b for b in cfg["bins"] if not b.get("aux") and b.get("tier", tier) == tier]
    for b in bins:
        if violation:
            break
        binary = os.path.join(out, b["name"])
        env = sanitizer_env(dict(os.environ))
        nw = b.get("workers", NCPU)
        cpu = b.get("cpu", 100)
        tmp = tempfile.mkdtemp(prefix="kgm-%s-" % pid)
        env.update({"KIGUMI_BUILD": out, "KIGUMI_TMP": tmp})
        try:
            procs = []
            for w in range(nw):
                wt = os.path.join(tmp, "w%d" % w)
                os.makedirs(wt)
                e = dict(env)
                e["KIGUMI_TMP"] = wt
                cmd = [binary, "run", "--seed", str(seed), "--worker", str(w), "--workers", str(nw), "--tier", tier,
                       "--out", os.path.join(tmp, "out%d.json" % w), "--replay", os.path.join(tmp, "replay"), "--tmp", wt,
                       "--deadline", str(budget), "--cpu-limit", str(cpu), "--shrink", "30"]
                if os.environ.get("KIGUMI_SUB"):
                    cmd += ["--sub", os.environ["KIGUMI_SUB"]]
                if os.environ.get("KIGUMI_SCALE"):
                    cmd += ["--scale", os.environ["KIGUMI_SCALE"]]
                procs.append(subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL,
                                              stderr=open(os.path.join(tmp, "err%d" % w), "w")))
            stop_at = None
            while any(p.poll() is None for p in procs):
                time.sleep(0.1)
                if stop_at is None and any(p.poll() not in (None, 0) for p in procs):
                    stop_at = time.time() + 45
                if stop_at is not None and time.time() > stop_at:
                    for p in procs:
                        if p.poll() is None:
                            p.kill()
                    break
            for p in procs:
                p.wait()
            for w, p in enumerate(procs):
                f = os.path.join(tmp, "out%d.json" % w)
                try:
                    data = json.load(open(f))
                except Exception:
                    if stop_at is None or p.returncode not in (-9, 0):
                        err = open(os.path.join(tmp, "err%d" % w)).read()[-2000:]
                        raise RuntimeError("worker %d of %s ended with %s and no report\n%s" % (w, b["name"], p.returncode, err))
                    continue
                for s in data["subs"]:
                    key = b["name"] + "." + s["name"]
                    if s["failed"]:
                        if violation:
                            continue
                        ok = confirm(cfg, b, binary, s["replay"], s["kind"], env, tmp, cpu)
                        if ok:
                            dst = os.path.join(replay_dir, "%s.%s.replay" % (pid, s["name"]))
                            with open(dst, "w") as g:
                                g.write("# %s %s\n" % (pid, b["name"]))
                                g.write(open(s["replay"]).read())
                            violation = (dst, s)
                        else:
                            unconfirmed.append({"sub": key, "kind": s["kind"], "msg": s["msg"][:600]})
                        continue
                    if key not in subs:
                        subs[key] = {"cases": 0, "discarded": 0, "nontrivial": 0, "evals": 0, "cut": "", "labels": {},
                                     "samples": [], "wall": 0, "planned": s["planned"], "hashes": set()}
                        order.append(key)
                    t = subs[key]
                    for k in ("cases", "discarded", "nontrivial", "evals"):
                        t[k] += s[k]
                    t["wall"] = max(t["wall"], s["wall"])
                    t["cut"] = t["cut"] or s["cut"]
                    t["hashes"].update(s["hashes"])
                    for k, v in s["labels"].items():
                        t["labels"][k] = t["labels"].get(k, 0) + v
                    if len(t["samples"]) < 3:
                        t["samples"] += s["samples"][:1]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    for b in bins:
        for sub, seconds in (b.get("fuzz", {}).items() if tier == "thorough" and not os.environ.get("KIGUMI_NO_FUZZ") else ()):
            if violation or os.environ.get("KIGUMI_SUB", sub) != sub:
                continue
            tmp = tempfile.mkdtemp(prefix="kgm-%s-" % pid)
            env = sanitizer_env(dict(os.environ))
            env.update({"KIGUMI_BUILD": out, "KIGUMI_TMP": tmp})
            try:
                seconds = max(5, int(seconds * float(os.environ.get("KIGUMI_SCALE", "1"))))
                num, violation = fuzz(b, sub, seconds, out, seed, env, tmp, b.get("cpu", 100), replay_dir, pid)
                fuzzed[b["name"] + "." + sub] = num
            finally:
                shutil.rmtree(tmp, ignore_errors=True)

    wall = time.time() - t0
    rules = {}
    for b in bins:
        p = subprocess.run([os.path.join(out, b["name"]), "list"], stdout=subprocess.PIPE, text=True)
        for l in p.stdout.splitlines():
            q = l.split("\t")
            rules[b["name"] + "." + q[0]] = q[3]
    cov = {
        "evaluations": sum(t["cases"] for t in subs.values()),
        "distinct_nontrivial": sum(len(t["hashes"]) for t in subs.values()),
        "rule": "Cases are generated from VERIF_SEED by the choice-sequence engine src/engine.h; distinct = distinct choice sequences. "
                + " | ".join("%s: %s" % (k, rules.get(k, "")) for k in order),
        "samples": [{"sub": k, "case": x[:2500]} for k in order for x in subs[k]["samples"][:2]][:12],
        "discarded": sum(t["discarded"] for t in subs.values()),
        "oracle_evaluations": sum(t["evals"] for t in subs.values()),
        "sub_properties": {k: {x: subs[k][x] for x in ("cases", "planned", "discarded", "nontrivial", "evals", "cut", "labels")} |
                           {"wall_s": round(subs[k]["wall"], 1)} for k in order},
        "build_s": round(t_build, 1),
    }
    if fuzzed:
        cov["coverage_guided"] = {"tool": "libFuzzer over the same choices (thorough tier); its cases are not among the evaluations above",
                                  "sub_properties": {k: dict(v, rule=rules.get(k, "")) for k, v in fuzzed.items()}}
    if unconfirmed:
        cov["unconfirmed_failures"] = unconfirmed
    if violation:
        cov["violation"] = {"kind": violation[1]["kind"], "message": violation[1]["msg"][:1500], "replay": violation[0]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov, "wall_s": round(wall, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in order:
        t = subs[k]
        log("  %-28s %7d cases, %6d distinct non-trivial, %5d discarded, %9d oracle evaluations, %.1f s %s" %
            (k, t["cases"], len(t["hashes"]), t["discarded"], t["evals"], t["wall"], t["cut"]))
    for k, v in fuzzed.items():
        log("  %-28s %7d cases guided by coverage in %.0f s, %d non-trivial, corpus %d -> %d, %d places covered" %
            (k, v["cases"], v["seconds"], v["nontrivial"], v["seeds"], v["corpus"], v["covered"]))
    for u in unconfirmed:
        log("  NOT REPRODUCED (not reported): %s %s: %s" % (u["sub"], u["kind"], u["msg"].splitlines()[0] if u["msg"] else ""))
    known = os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(known) if os.path.exists(known) else []:
        l = l.strip()
        if l.startswith("finding: property=%s " % pid):
            log("KNOWN-FINDING: " + l[len("finding: "):])
    shutil.rmtree(os.path.join(BUILD, pid), ignore_errors=True) if os.environ.get("KIGUMI_KEEP") is None else None
    if violation:
        s = violation[1]
        log("%s [%s] %s" % (s["name"], s["kind"], s["msg"][:1500]))
        log("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    log("%s: held on everything explored (%.0f s)" % (pid, wall))
    return 0


try:
    sys.exit(main())
except Build_error as e:
    log("ERROR: the harness does not build against the current tree\n%s" % e)
    sys.exit(2)
