#!/usr/bin/env python3
"""Driver of the model checking harnesses.

  check.py run <property> <quick|thorough>   explore; exit 0 (held) or 1 (VIOLATION line printed)
  check.py replay <file>                     re-execute one recorded violating state against /repo's current tree
  check.py list                              list properties and their translation units

Every run compiles the harness units of the property against the current working tree of /repo (REPO),
executes the exhaustive enumeration on the real code, replays each failing state on its own before it is
reported, and writes evidence/<property>.json.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import treegen  # noqa: E402
from registry import CHECKS  # noqa: E402

VENV = "/opt/dune/venv"
LIB = VENV + "/lib"
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
CXX = ["g++"]
BASE = ["-std=gnu++20", "-DHAVE_CONFIG_H", "-I" + VERIF + "/harness", "-I" + REPO,
        "-isystem", VENV + "/include", "-isystem", VENV + "/include/dune/python",
        "-w", "-O1", "-D_GLIBCXX_ASSERTIONS", "-DDUNE_CHECK_BOUNDS", "-DDUNE_ISTL_WITH_CHECKING"]
LIBS = [LIB + "/libdunegrid.a", LIB + "/libdunegeometry.a", LIB + "/libdunecommon.a", "-llapack", "-lblas", "-ltbb"]
ALBERTA = ["-DALBERTA_DIM=2", "-DHAVE_ALBERTA=1", "-DHAVE_STDBOOL_H"]
# g++ aborts on memory errors only in the units that ask for it
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def alberta_libs():
    out = [LIB + "/libdunealbertagrid2d.a"]
    for n in ("libalberta_2d.so", "libalberta_utilities.so"):
        for d in ("/usr/lib/x86_64-linux-gnu", "/usr/lib", "/usr/local/lib", LIB):
            if os.path.exists(os.path.join(d, n)):
                out.append(os.path.join(d, n))
                break
    return out


def compile_unit(prop, u, out):
    """returns (ok, log)"""
    if "py" in u:
        return True, ""   # compiles what it needs when run
    flags = list(BASE) + ["-D" + d for d in u.get("defs", [])]
    libs = list(LIBS)
    if u.get("alberta"):
        flags += ALBERTA
        libs = alberta_libs() + libs
    if u.get("asan"):
        flags += ASAN
    # many short programs: compiling them takes longer than running them
    if u["src"] in ("tree.cc", "subdomain.cc"):
        flags += ["-Og"]
    flags += u.get("flags", [])
    if "trees" in u:
        # the trees of this unit: part k of n of the grammar level
        level, k, n = u["trees"]
        inc = out + ".inc"
        with open(inc, "w") as f:
            f.write("List<%s>\n" % ",".join(treegen.chunks(level, n)[k]))
        flags += ['-DTREES_INC="%s"' % inc]
    src = os.path.join(VERIF, "harness", u["src"])
    cxx = list(CXX)
    if shutil.which("ccache") and os.environ.get("VERIF_CCACHE"):
        cxx = ["ccache"] + cxx
    log = ""
    for attempt in range(2):
        r = subprocess.run(cxx + flags + ["-c", src, "-o", out + ".o"], capture_output=True, text=True)
        if r.returncode == 0:
            r = subprocess.run(CXX + (ASAN if u.get("asan") else []) + [out + ".o", "-o", out] + libs, capture_output=True, text=True)
        if r.returncode == 0:
            os.unlink(out + ".o")
            return True, ""
        log = r.stderr
    return False, log


def known_findings(prop):
    """[(regex, description)] of the recorded, unrepaired findings of a property"""
    res = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def execute(exe, args, res, timeout):
    exe = [exe] if isinstance(exe, str) else exe
    for f in (res, res + ".crash"):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0:halt_on_error=1")
    try:
        r = subprocess.run(exe + args + ["--out", res], capture_output=True, timeout=timeout, env=env, cwd=BUILD)
        rc, err = r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    out = {"rc": rc, "stderr": err[-3000:], "data": None, "crash": None}
    if rc == 0 and os.path.exists(res):
        out["data"] = json.load(open(res))
    elif os.path.exists(res + ".crash"):
        lines = open(res + ".crash", errors="replace").read().split("\n")
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: .*)", err)
        out["crash"] = (lines[0], (lines[1] if len(lines) > 1 else "crash") + (" [" + m.group(1)[:200] + "]" if m else ""))
    return out


def explore(prop, tier):
    t0 = time.time()
    spec = CHECKS[prop]
    units = [u for u in spec["units"] if u.get("tier", tier) == tier]
    work = os.path.join(BUILD, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    kf = os.path.join(work, "known.txt")
    known = known_findings(prop)
    with open(kf, "w") as f:
        f.write("".join(k + "\n" for k, _ in known))
    # time allowed to all executions together
    limit = 780 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_LIMIT", "14400"))
    results, violations, incomplete = [], [], []

    def note(text):
        if os.environ.get("VERIF_TIMES"):
            print("[%.1f] %s" % (time.time() - t0, text), file=sys.stderr)

    def build(i):
        u = units[i]
        exe = program(u, os.path.join(work, "u%d" % i))
        t = time.time()
        r = compile_unit(prop, u, exe)
        note("compile %d %s %.1f s" % (i, u.get("src", u.get("py")), time.time() - t))
        return i, exe, r

    def go(i, exe, s, n):
        res = os.path.join(work, "u%d.%d.json" % (i, s))
        t = time.time()
        r = execute(exe, ["--tier", tier, "--shard", str(s), str(n), "--known", kf] + units[i].get("args", []),
                    res, max(30, limit - (time.time() - t0)))
        note("run %d.%d %.1f s" % (i, s, time.time() - t))
        return i, r

    # runs of Python units mostly wait for the compilation of the same modules
    with cf.ThreadPoolExecutor(JOBS + (6 if all("py" in u for u in units) else 0)) as pool:
        exes = {}
        runs = []
        futs = [pool.submit(build, i) for i in range(len(units))]
        for f in cf.as_completed(futs):
            i, exe, (ok, log) = f.result()
            if not ok:
                first = [l for l in log.splitlines() if "error" in l][:6]
                violations.append({"unit": i, "key": "compile", "message":
                                   "the documented interface used by this unit no longer compiles: " + " | ".join(l[:300] for l in first)})
                continue
            exes[i] = exe
            n = units[i].get("shards", {"quick": 1, "thorough": 4})
            n = n[tier] if isinstance(n, dict) else n
            runs += [pool.submit(go, i, exe, s, n) for s in range(n)]
        for f in cf.as_completed(runs):
            results.append(f.result())
    tot = dict(states=0, transitions=0, checks=0, outcomes=0, traces=0)
    samples, knownhits = [], {}
    for i, r in results:
        if r["data"]:
            for k in tot:
                tot[k] += r["data"].get(k, 0)
            samples += r["data"]["samples"][:2]
            for key, msg in r["data"]["failed"]:
                violations.append({"unit": i, "key": key, "message": msg})
            for pat, n in r["data"]["known"]:
                knownhits[pat] = knownhits.get(pat, 0) + n
        elif r["crash"]:
            violations.append({"unit": i, "key": r["crash"][0], "message": r["crash"][1]})
        else:
            incomplete.append((i, r))
    # replay each violation on its own before reporting it
    confirmed = []
    for v in violations[:12]:
        if v["key"] == "compile":
            confirmed.append(v)
            continue
        ok = replay_state(prop, tier, dict(v, unit=units[v["unit"]]), exes[v["unit"]], kf, work)
        if ok:
            v["message"] = ok
            confirmed.append(v)
        else:
            incomplete.append((v["unit"], {"rc": "violation did not replay", "stderr": json.dumps(v)}))
        if len(confirmed) >= 3:
            break
    wall = time.time() - t0
    # a unit that explored nothing would make the verdict vacuous
    vac = [i for i in exes if not any(j == i and r["data"] and r["data"]["states"] > 0 for j, r in results)]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for n, v in enumerate(confirmed):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "tier": tier, "unit": units[v["unit"]], "key": v["key"], "message": v["message"],
                   "how": "python3 /verif/check.py replay " + path}, open(path, "w"), indent=1)
        lines.append((path, v))
    samples.sort()
    step = max(1, len(samples) // 8)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"],
                       "traces_validated_against_impl": tot["traces"],
                       "evaluations": tot["checks"], "distinct_nontrivial": tot["outcomes"],
                       "rule": spec["rule"], "samples": samples[::step][:10],
                       "exhaustive": not incomplete and not confirmed, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
                       "known_finding_states": sum(knownhits.values()), "units": len(units)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(confirmed)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, d in known:
        if knownhits.get(k):
            print("KNOWN-FINDING: property=%s %s (%d states)" % (prop, d, knownhits[k]))
    for path, v in lines:
        print("property %s violated in state %s: %s" % (prop, v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: states=%d transitions=%d checks=%d distinct outcomes=%d traces=%d in %.1fs" %
          (prop, tier, tot["states"], tot["transitions"], tot["checks"], tot["outcomes"], tot["traces"], wall))
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if confirmed:
        return 1
    if incomplete or vac:
        for i, r in incomplete:
            print("INCOMPLETE unit %d %s: rc=%s %s" % (i, units[i], r["rc"], r["stderr"][-500:]))
        if vac:
            print("VACUOUS units: %s" % vac)
        return 2
    return 0


def replay_state(prop, tier, v, exe, kf, work):
    """run a single state; returns the failure message or None"""
    res = os.path.join(work, "replay.json")
    u = v["unit"]
    r = execute(exe, ["--tier", tier, "--only", v["key"], "--known", kf] + u.get("args", []), res, 300)
    if r["data"] and r["data"]["failed"]:
        return r["data"]["failed"][0][1]
    if r["crash"]:
        return r["crash"][1]
    if r["data"] is None:
        return "abnormal termination (%s): %s" % (r["rc"], r["stderr"][-300:])
    return None


def program(u, exe):
    """how a unit is run"""
    return [VENV + "/bin/python3", os.path.join(VERIF, "harness", "py", u["py"])] + (["--group", u["group"]] if "group" in u else []) if "py" in u else exe


def replay(path):
    d = json.load(open(path))
    work = os.path.join(BUILD, "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    exe = program(d["unit"], os.path.join(work, "u"))
    ok, log = compile_unit(d["property"], d["unit"], exe)
    if not ok:
        print(log[:3000])
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    if d["key"] == "compile":
        print("compiles now")
        return 0
    kf = os.path.join(work, "known.txt")
    open(kf, "w").write("".join(k + "\n" for k, _ in known_findings(d["property"])))
    m = replay_state(d["property"], d["tier"], {"unit": d["unit"], "key": d["key"]}, exe, kf, work)
    shutil.rmtree(work, ignore_errors=True)
    if m:
        print("state %s: %s" % (d["key"], m))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("state %s: holds" % d["key"])
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 4 and sys.argv[1] == "run":
        sys.exit(explore(sys.argv[2], sys.argv[3]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "list":
        for p, s in CHECKS.items():
            print(p, len(s["units"]), "units")
        sys.exit(0)
    print(__doc__)
    sys.exit(2)
