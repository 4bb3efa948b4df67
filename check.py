#!/usr/bin/env python3
"""Runs one property check:  check.py <id> [--tier quick|thorough] [--replay FILE] ; check.py --setup

Builds the simulators from the working tree in /repo, runs the seeded
executions of the property and writes evidence/<id>.json.
Exit status: 0 property held, 1 violated (with VIOLATION line), 2 check error.
"""
import sys, os, json, time, hashlib, subprocess, threading, fcntl, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
from sim.plan import BUILDS, EXES, PLAN, FAULTS, COMPONENTS, ASSUMPTIONS, RULES, LEVELS

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILDROOT = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
JOBS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def sh(cmd, log, env=None):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        tail = open(log, "rb").read()[-3000:].decode("utf8", "replace")
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), tail))


# ------------------------------------------------------------------ builds
def tree_files(root, skip):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip and not x.startswith("build"))
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out.append(p)
    return out


def content_hash():
    h = hashlib.sha256()
    for root, skip in ((REPO, {".git", "_build", "docs", "tests", "examples"}), (os.path.join(HERE, "sim"), {"__pycache__"})):
        for p in tree_files(root, skip):
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def prune(keep):
    try:
        dirs = [os.path.join(BUILDROOT, d) for d in os.listdir(BUILDROOT)]
        dirs = sorted((d for d in dirs if os.path.isdir(d) and os.path.basename(d) != keep), key=os.path.getmtime)
        for d in dirs[:-20] if len(dirs) > 20 else []:
            if time.time() - os.path.getmtime(d) > 7200:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build_lib(name, top):
    """one configured build of the library; returns directory"""
    b = BUILDS[name]
    d = os.path.join(top, "lib-" + name)
    if os.path.exists(os.path.join(d, ".done")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    log = os.path.join(top, "lib-%s.log" % name)
    sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DBUILD_SHARED_LIBS=OFF", "-DCMAKE_BUILD_TYPE=Release",
        "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_CXX_FLAGS=" + b["flags"]] + b.get("cmake", []), log)
    sh(["ninja", "-C", d, "catima"], log)
    open(os.path.join(d, ".done"), "w").close()
    return d


def build_exe(kind, name, top):
    e, b = EXES[kind], BUILDS[name]
    exe = os.path.join(top, "%s-%s" % (kind, name))
    if os.path.exists(exe):
        return exe
    log = os.path.join(top, "exe-%s-%s.log" % (kind, name))
    lib = build_lib(e.get("lib", "{b}").format(b=name), top)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(lib, "generated"), "-I" + os.path.join(HERE, "sim"), "-I" + REPO]
    objs = []
    late = []
    jobs = []
    for k, src in enumerate(e["sources"] + e.get("late", [])):
        flags = list(e.get("flags", []))
        if isinstance(src, tuple):
            src, more = src
            flags += more
        path = src.format(repo=REPO) if src.startswith("{repo}") else os.path.join(HERE, "sim", src)
        o = os.path.join(top, "%s-%s-%s.o" % (kind, name, os.path.basename(src)))
        (late if k >= len(e["sources"]) else objs).append(o)
        jobs.append(["g++", "-std=c++17", "-O1", "-g0", "-w"] + b["flags"].split() + b.get("harness", "").split() + flags + inc + ["-c", path, "-o", o])
    with ThreadPoolExecutor(len(jobs)) as ex:
        list(ex.map(lambda ij: sh(ij[1], log + str(ij[0])), enumerate(jobs)))
    tmp = exe + ".tmp"
    whole = ["-Wl,--whole-archive", os.path.join(lib, "libcatima.a"), "-Wl,--no-whole-archive"] if late else [os.path.join(lib, "libcatima.a")]
    sh(["g++"] + objs + whole + late + e.get("link", []) + ["-o", tmp], log)
    os.rename(tmp, exe)
    return exe


def build_all(pairs):
    os.makedirs(BUILDROOT, exist_ok=True)
    h = content_hash()
    top = os.path.join(BUILDROOT, h)
    os.makedirs(top, exist_ok=True)
    with open(os.path.join(BUILDROOT, h + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        libs = sorted({EXES[k].get("lib", "{b}").format(b=b) for k, b in pairs})
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda n: build_lib(n, top), libs))
        with ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda kb: build_exe(kb[0], kb[1], top), pairs))
    if content_hash() != h:
        raise CheckError("sources changed during the build")
    os.utime(top)
    prune(h)
    return dict(zip(pairs, exes)), top


# ------------------------------------------------------------------ runs
def run_chunk(exe, prop, build, seed, first, count, cap, env, thorough):
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--first", str(first), "--count", str(count),
           "--cap", "%.1f" % cap, "--out", REPLAYS, "--label", build, "--twice", "7"]
    if thorough:
        cmd.append("--thorough")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    res = {"exit": r.returncode, "stderr": r.stderr.decode("utf8", "replace")[-2000:], "violation": None, "summary": None, "cmd": cmd}
    for line in r.stdout.decode("utf8", "replace").splitlines():
        if not line.startswith("{"):
            continue
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("violation"):
            res["violation"] = j
        elif j.get("summary"):
            res["summary"] = j
        elif j.get("unrepeatable"):
            res["unrepeatable"] = j
    return res


def exe_env(prop, build, exes, top):
    env = dict(os.environ)
    env.pop("SIM_NOASLR", None)
    env["LC_ALL"] = "C"
    alts = []
    for (flag, k, b) in PLAN[prop].get("alt", {}).get(build, []):
        alts.append("%s=%s" % (flag, exes[(k, b)]))
    if alts:
        env["SIM_ALT"] = ":".join(alts)
    env["SIM_TMP"] = os.path.join(top, "tmp")
    os.makedirs(env["SIM_TMP"], exist_ok=True)
    return env


def pairs_of(prop):
    p = [(k, b) for (k, b, *_ ) in PLAN[prop]["jobs"]]
    for alts in PLAN[prop].get("alt", {}).values():
        p += [(k, b) for (_, k, b) in alts]
    return sorted(set(p))


def replay(exe, prop, path, env):
    r = subprocess.run([exe, "--prop", prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    for line in r.stdout.decode("utf8", "replace").splitlines():
        if line.startswith("{"):
            try:
                return r.returncode, json.loads(line)
            except ValueError:
                pass
    return r.returncode, {}


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    exes, top = build_all(pairs_of(prop))
    t_build = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    deadline = time.time() + (700 if thorough else 420)
    chunks = []
    for ji, (kind, build, quick, deep, size) in enumerate(PLAN[prop]["jobs"]):
        total = deep if thorough else quick
        first = 0
        while first < total:
            n = min(size, total - first)
            chunks.append((kind, build, first, n))
            first += n
    # interleave builds so that each gets its share when time is short
    order = sorted(range(len(chunks)), key=lambda i: (chunks[i][2] / max(1, max(c[2] + c[3] for c in chunks if c[:2] == chunks[i][:2])), i))
    chunks = [chunks[i] for i in order]
    results = [None] * len(chunks)
    state = {"next": 0, "stop_at": len(chunks)}
    lock = threading.Lock()

    def worker():
        while True:
            with lock:
                i = state["next"]
                if i >= len(chunks) or i > state["stop_at"]:
                    return
                state["next"] += 1
            kind, build, first, n = chunks[i]
            cap = deadline - time.time()
            if cap < 1:
                results[i] = {"skipped": True}
                continue
            r = run_chunk(exes[(kind, build)], prop, build, seed, first, n, cap, exe_env(prop, build, exes, top), thorough)
            results[i] = r
            if r.get("violation") or r["exit"] != 0:
                with lock:
                    state["stop_at"] = min(state["stop_at"], i)

    ts = [threading.Thread(target=worker) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    t_run = time.time() - t0 - t_build

    counters, sets, per_build, samples = {}, {}, {}, []
    runs = skipped = 0
    violation = error = None
    for i, r in enumerate(results):
        if r is None:
            continue
        if r.get("skipped"):
            skipped += 1
            continue
        kind, build, first, n = chunks[i]
        if r.get("unrepeatable"):
            error = error or "unrepeatable failure: %s" % r["unrepeatable"]
            continue
        if r["exit"] != 0 or r["summary"] is None:
            error = error or "simulator ended with status %s: %s\n%s" % (r["exit"], " ".join(r["cmd"]), r["stderr"])
            continue
        s = r["summary"]
        runs += s["runs"]
        pb = per_build.setdefault(build, {"runs": 0, "cpu_s": 0.0})
        pb["runs"] += s["runs"]
        pb["cpu_s"] = round(pb["cpu_s"] + s["wall"], 2)
        for k, v in s["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in s["sets"].items():
            sets.setdefault(k, set()).update((build + x) for x in v)
        if s["sample"] and len(samples) < 2 and (not samples or build not in samples[0]["build"]):
            text = s["sample"]
            samples.append({"build": build, "trace": text if len(text) < 4000 else text[:4000] + "..."})
        if r["violation"] and violation is None:
            violation = (kind, build, r["violation"])
    if counters.get("repeat_mismatches"):
        error = error or "executions are not repeatable: %s" % "".join((r or {}).get("stderr", "") for r in results)[-1500:]
    if not violation and not error and runs == 0:
        error = "nothing was executed"
    if not error and counters.get("inconclusive", 0) * 5 > runs:
        error = "%d of %d executions inconclusive" % (counters["inconclusive"], runs)

    status = 0
    vout = None
    if violation:
        kind, build, v = violation
        code, rep = replay(exes[(kind, build)], prop, v["replay"], exe_env(prop, build, exes, top))
        if code == 1 and rep.get("violated") and rep.get("kind") == v["kind"] and rep.get("hash") == v["hash"]:
            status, vout = 1, v
        else:
            error = "violation did not replay in a fresh process: %s / %s" % (v, rep)
    if error and status == 0:
        status = 2

    wall = time.time() - t0
    faults = {k: counters.get(k, 0) for k in FAULTS[prop]}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVELS[prop],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sets.get("nontrivial_shape", ())),
            "rule": RULES[prop],
            "samples": samples,
            "seeds_per_hour": int(runs / max(t_run, 1e-3) * 3600),
            "runs_per_build": per_build,
            "simulated_steps": counters.get("steps", 0),
            "faults_and_choices_fired": faults,
            "distinct_executions": len(sets.get("execution", ())),
            "other_distinct": {k: len(v) for k, v in sets.items() if k not in ("execution", "nontrivial_shape")},
            "repeated_for_determinism": counters.get("repeat_probes", 0),
            "inconclusive": counters.get("inconclusive", 0),
            "counters": {k: v for k, v in sorted(counters.items()) if k not in faults and k not in ("steps", "repeat_probes", "inconclusive", "nontrivial")},
            "components": COMPONENTS[prop],
            "chunks_skipped_for_time": skipped,
            "build_s": round(t_build, 2),
        },
        "assumptions": ASSUMPTIONS[prop],
        "wall_s": round(wall, 2),
        "violations": 1 if status == 1 else 0,
    }
    if vout:
        ev["coverage"]["violation"] = {k: vout[k] for k in ("run", "replay", "kind", "detail", "steps_before", "steps_after")}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    print("%s %s seed=%d: %d executions (%d distinct non-trivial), %d steps, %.1f s build, %.1f s run" %
          (prop, tier, seed, runs, ev["coverage"]["distinct_nontrivial"], counters.get("steps", 0), t_build, t_run))
    if status == 1:
        print("%s: %s" % (vout["kind"], vout["detail"]))
        print("minimised from %d to %d steps" % (vout["steps_before"], vout["steps_after"]))
        print("VIOLATION property=%s replay=%s" % (prop, vout["replay"]))
    elif status:
        print("CHECK ERROR: %s" % error)
    return status


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.setup:
            t = time.time()
            pairs = sorted({x for p in PLAN for x in pairs_of(p)})
            build_all(pairs)
            print("built %d simulators in %.1f s" % (len(pairs), time.time() - t))
            return 0
        if a.prop not in PLAN:
            print("unknown property %s" % a.prop)
            return 2
        if a.replay:
            exes, top = build_all(pairs_of(a.prop))
            head = open(a.replay).readline().split()
            build = head[head.index("build") + 1]
            kind = [k for (k, b, *_ ) in PLAN[a.prop]["jobs"] if b == build][0]
            code, rep = replay(exes[(kind, build)], a.prop, os.path.abspath(a.replay), exe_env(a.prop, build, exes, top))
            print(json.dumps(rep, indent=1))
            return code
        tier = a.tier if a.tier in ("quick", "thorough") else "quick"
        return check(a.prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
