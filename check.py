#!/usr/bin/env python3
"""Deterministic-simulation check of one property.

usage: check.py PROPERTY quick|thorough        run the check (exit 0 held, 1 violation, 2 error of the check)
       check.py --build [PROPERTY...]          build only (setup)
       check.py --replay PROPERTY FILE         replay a file against the current tree

Builds the library from /repo's working tree, the scenario scen/<PROPERTY>.cpp and the simulator into build/, searches
seeds on all cores, and for a failure: repeats it in a fresh process, minimises it, repeats the minimised file.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NUCLEAR_REPO", "/repo")
BUILD = os.path.join(V, "build")
T0 = time.time()

CXX = "clang++"
FLAGS = ["-std=c++14", "-O1", os.environ.get("SIM_DEBUG", "-gline-tables-only"), "-fno-pie", "-fsanitize=thread", "-w",
         "-mllvm", "-tsan-instrument-func-entry-exit=0"]
LINK = ["-no-pie", "-static-libstdc++", "-static-libgcc", "-Wl,-z,now", "-Wl,-z,norelro"]
JOBS = len(os.sched_getaffinity(0))

# Per property: search seconds of the quick tier (default 25) and what ran for real.
CONF = json.load(open(os.path.join(V, "scen", "conf.json")))


def say(*a):
    print(*a, flush=True)


def error(msg):
    say("ERROR: " + msg)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(paths, extra=b""):
    h = hashlib.sha256(extra)
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:20]


def walk(d, pred=lambda n: True):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if pred(f)]
    return sorted(out)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_to(out, cmd):
    tmp = f"{out}.{os.getpid()}.tmp"
    r = run(cmd + ["-o", tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    return r


def prune(d, keep):
    """Old builds are removed, newest kept."""
    try:
        es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime, reverse=True)
    except OSError:
        return
    for e in es[keep:]:
        if time.time() - os.path.getmtime(e) > 1800:
            (shutil.rmtree if os.path.isdir(e) else os.unlink)(e)


def build(prop):
    """-> path of the executable"""
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    src = walk(os.path.join(REPO, "src"))
    srch = tree_hash(src, (" ".join(FLAGS) + CXX + "1").encode())
    simh = tree_hash(walk(os.path.join(V, "sim")))
    sfile = os.path.join(V, "scen", prop + ".cpp")
    sch = tree_hash([sfile] + walk(os.path.join(V, "scen"), lambda n: n.endswith(".hpp")),
                    (srch + read(os.path.join(V, "sim", "sim.hpp")).decode()).encode())
    exe = os.path.join(BUILD, "bin", f"{prop}-{srch[:10]}-{simh[:10]}-{sch[:10]}")
    lock = open(os.path.join(BUILD, ".lock." + prop), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    liblock = open(os.path.join(BUILD, ".lock.lib"), "w")
    fcntl.flock(liblock, fcntl.LOCK_EX)
    lib = os.path.join(BUILD, "lib-" + srch)
    fresh = not os.path.exists(os.path.join(lib, "ok"))
    if fresh:
        os.makedirs(lib, exist_ok=True)
        hdr = read(os.path.join(REPO, "src", "nuclear.in")).decode().replace("${nuclear_include_base_directory}", "")
        with open(os.path.join(lib, "nuclear"), "w") as f:
            f.write(hdr)
    inc = ["-I" + lib, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "scen")]
    rt = os.path.join(BUILD, f"rt-{simh}.o")
    so = os.path.join(BUILD, f"scen-{prop}-{sch}.o")
    cpps = [f for f in src if f.endswith(".cpp")]
    n = 8
    jobs = []
    if not os.path.exists(so):
        jobs.append((so, [CXX] + FLAGS + inc + ["-c", sfile], None))
    if not os.path.exists(rt):
        jobs.append((rt, ["g++", "-std=c++17", "-O2", "-g", "-fno-pie", "-fno-threadsafe-statics", "-c",
                          os.path.join(V, "sim", "rt.cpp")], None))
    if fresh:
        for i in range(n):
            group = cpps[i::n]
            u = os.path.join(lib, f"u{i}.cpp")
            with open(u, "w") as f:
                f.write("".join(f'#include "{c}"\n' for c in group))
            jobs.append((os.path.join(lib, f"u{i}.o"), [CXX] + FLAGS + inc + ["-c", u], group))

    def one(job):
        out, cmd, group = job
        r = compile_to(out, cmd)
        if r.returncode == 0 or group is None:
            return r
        # the files of this group do not compile as one unit: compile them one by one
        for c in group:
            r = compile_to(os.path.join(lib, "s_" + hashlib.sha1(c.encode()).hexdigest()[:12] + ".o"), cmd[:-1] + [c])
            if r.returncode:
                return r
        return r

    with cf.ThreadPoolExecutor(max(JOBS, 4)) as ex:
        for r in ex.map(one, jobs):
            if r.returncode:
                error("build failed:\n" + r.stdout[-6000:])
    if fresh:
        open(os.path.join(lib, "ok"), "w").close()
    objs = [so] + [os.path.join(lib, o) for o in sorted(os.listdir(lib)) if o.endswith(".o")] + [rt]
    r = compile_to(exe, [CXX] + LINK + objs + ["-ldl", "-lpthread"])
    if r.returncode:
        error("link failed:\n" + r.stdout[-6000:])
    return exe


def seed_base(prop, seed):
    return int.from_bytes(hashlib.sha256(f"{prop}/{seed}".encode()).digest()[:7], "big")


def symbolise(exe, text):
    pcs = sorted(set(re.findall(r"pc (0x[0-9a-f]+)", text)))
    if not pcs:
        return text
    for tool in (["llvm-symbolizer", "--obj=" + exe, "--demangle", "--inlines"],
                 ["addr2line", "-Cfie", exe]):
        try:
            out = []
            for pc in pcs:
                r = run(tool + [hex(int(pc, 16) - 1)])
                frames = [l for l in r.stdout.strip().splitlines() if l]
                out.append(f"    {pc}: " + " < ".join(
                    f"{frames[i]} ({os.path.relpath(frames[i + 1], REPO) if frames[i + 1].startswith(REPO) else frames[i + 1]})"
                    for i in range(0, len(frames) - 1, 2)))
            return text + "\n" + "\n".join(out)
        except OSError:
            continue
    return text


def replay(exe, path, timeout=120):
    r = run([exe, "replay", path], timeout=timeout)
    m = re.match(r"(FAIL|PASS|INFRA) (\S*) ?hash (\S+) (same|different)", r.stdout)
    if not m:
        return None, None, None, r.stdout
    return m.group(1), m.group(2), m.group(4) == "same", r.stdout


def known_findings():
    """known-findings.txt: 'finding: property=ID class=CLS match=REGEX what' and 'fixed: property=ID COMMIT what'"""
    out = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def search(exe, base, seconds, keep, wd, maxruns=None):
    cpus = sorted(os.sched_getaffinity(0))
    n = max(1, len(cpus))
    ps = []
    for i in range(n):
        cmd = [exe, "search", "--base", str(base), "--start", str(i), "--stride", str(n), "--seconds", str(seconds),
               "--out", f"{wd}/w{i}.json", "--replay", f"{wd}/f{i}"]
        if maxruns:
            cmd += ["--max", str(maxruns // n)]
        if keep:
            cmd.append("--keep-going")
        cpu = cpus[i]
        ps.append(subprocess.Popen(cmd, stdout=open(f"{wd}/o{i}", "w"), stderr=subprocess.STDOUT,
                                   preexec_fn=lambda c=cpu: os.sched_setaffinity(0, {c})))
    end = time.time() + seconds + 90
    first = None
    rc = [None] * n
    while any(r is None for r in rc) and time.time() < end:
        time.sleep(0.05)
        for i, p in enumerate(ps):
            if rc[i] is None:
                rc[i] = p.poll()
                if rc[i] not in (None, 0) and not keep and first is None:
                    first = time.time()
                    end = min(end, first + 2)
    for i, p in enumerate(ps):
        if p.poll() is None:
            p.kill()
            p.wait()
            rc[i] = "killed"
    return rc, first is not None


def merge(wd, n):
    tot = dict(runs=0, nontrivial=0, distinct_schedules=0, switch_pairs=0, steps=0, switches=0, preemptions=0,
               stalls=0, infra=0, selfchecks=0, sim_seconds=0.0)
    strategies = [0] * 5
    faults, probes, samples, msgs = {}, {}, [], []
    seen = set()
    for i in range(n):
        try:
            d = json.load(open(f"{wd}/w{i}.json"))
        except (OSError, ValueError):
            continue
        for k in tot:
            tot[k] = max(tot[k], d[k]) if k == "switch_pairs" else tot[k] + d[k]
        strategies = [a + b for a, b in zip(strategies, d["strategies"])]
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
        samples += d["samples"]
        if d["infra_msg"]:
            msgs.append(d["infra_msg"])
        try:
            b = read(f"{wd}/w{i}.json.seen")
            seen.update(struct.unpack(f"<{len(b) // 8}Q", b))
        except OSError:
            pass
    tot["distinct_nontrivial"] = len(seen)
    return tot, strategies, faults, probes, samples, msgs


def handle_failure(prop, exe, path, out):
    """Gate a failure through fresh processes. -> (class, message, replay path) or an error string"""
    st, cls, same, txt = replay(exe, path)
    if st != "FAIL":
        return f"a failure did not repeat in a fresh process ({st}): {path}\n{txt}"
    small = path + ".min"
    try:
        run([exe, "min", path, small, str(CONF["properties"].get(prop, {}).get("min_seconds", 15))], timeout=150)
    except subprocess.TimeoutExpired:
        pass
    use = path
    if os.path.exists(small):
        st2, cls2, same2, txt2 = replay(exe, small)
        if st2 == "FAIL" and cls2 == cls and same2:
            use, txt = small, txt2
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copy(use, out)
    msg = symbolise(exe, "\n".join(txt.splitlines()[1:]))
    with open(out, "a") as f:
        f.write("".join(f"# {l}\n" for l in (txt.splitlines()[0] + "\n" + msg).splitlines()))
    return cls, msg, out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        props = sys.argv[2:] or sorted(CONF["properties"])
        build(props[0])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda p: run([sys.executable, __file__, "--build", p]), props[1:]))
        bad = [r.stdout for r in rs if r.returncode]
        if bad:
            error("\n".join(bad))
        prune(os.path.join(BUILD, "bin"), 60)
        return
    if len(sys.argv) >= 4 and sys.argv[1] == "--replay":
        exe = build(sys.argv[2])
        st, cls, same, txt = replay(exe, sys.argv[3])
        say(symbolise(exe, txt))
        sys.exit({"FAIL": 1, "PASS": 0}.get(st, 2))
    prop, tier = sys.argv[1], sys.argv[2]
    conf = CONF["properties"][prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe = build(prop)
    tb = time.time() - T0
    seconds = conf.get("quick_s", 25) if tier == "quick" else conf.get("thorough_s", 600)
    if os.environ.get("SIM_SECONDS"):
        seconds = float(os.environ["SIM_SECONDS"])
    listed = [k for k in known_findings() if k[0] == prop]
    wd = os.path.join(BUILD, "work", f"{prop}.{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    ts = time.time()
    rc, failed = search(exe, seed_base(prop, seed), seconds, bool(listed), wd)
    wall = time.time() - ts
    n = len(rc)
    tot, strategies, faults, probes, samples, msgs = merge(wd, n)
    violations, known_hits, errors = [], {}, []
    for i in range(n):
        o = open(f"{wd}/o{i}", errors="replace").read()
        if rc[i] in (3,) or (isinstance(rc[i], int) and rc[i] not in (0, 1)):
            errors.append(f"worker {i} ended with {rc[i]}: {o[-1500:]}")
        if rc[i] == "killed" and not failed:
            errors.append(f"worker {i} did not end in time: {o[-1500:]}")
        files = sorted(f for f in os.listdir(wd) if re.fullmatch(rf"f{i}(\.\d+)?", f))
        fails = re.findall(r"^FAIL (\d+) (\S+) (.*)$", o, re.M)
        for k, f in enumerate(files):
            m = re.search(r"^class (\S+)$", open(f"{wd}/{f}", errors="replace").read(), re.M)
            cls = m.group(1) if m else "?"
            msg = fails[k][2] if k < len(fails) else ""
            hit = [l for l in listed if l[1] == cls and re.search(l[2], symbolise(exe, msg))]
            if hit:
                known_hits[hit[0]] = known_hits.get(hit[0], 0) + 1
            else:
                violations.append((cls, f"{wd}/{f}"))
    code = 0
    reported = []
    if violations:
        # one report per class of failure, first found
        done = set()
        for cls, f in violations:
            if cls in done or len(done) >= 2:
                continue
            done.add(cls)
            r = handle_failure(prop, exe, f, os.path.join(V, "replays", f"{prop}-{cls}-{seed}.replay"))
            if isinstance(r, str):
                errors.append(r)
            else:
                reported.append(r)
    for l in listed:
        say(f"KNOWN-FINDING: property={prop} {l[3]} (reached {known_hits.get(l, 0)} times in this run)")
    if tot["infra"] and tot["infra"] * 200 > tot["runs"]:
        errors.append(f"{tot['infra']} of {tot['runs']} runs hit a limit of the simulator: {msgs[:1]}")
    elif tot["infra"]:
        say(f"note: {tot['infra']} of {tot['runs']} runs hit a limit of the simulator and gave no verdict: {msgs[:1]}")
    if not tot["runs"] and not reported:
        errors.append("no simulated run completed")
    missing = [p for p in conf.get("must_probe", []) if not probes.get(p)]
    if missing and not reported:
        say(f"note: conditions never reached in this run: {missing}")
    hours = max(wall, 1e-9) * 1.0 / 3600
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["distinct_nontrivial"],
        "rule": "One case is one complete simulated run of the scenario scen/%s.cpp from one seed, which decides the workload, every "
                "scheduling choice, delay and fault. %s Distinct: by the hash of the run's full sequence of scheduling decisions, "
                "switch points, choices and faults." % (prop, conf["nontrivial"]),
        "samples": samples[:6],
        "simulated_runs_per_hour": int(tot["runs"] / hours),
        "seeds_per_hour": int(tot["runs"] / hours),
        "simulated_seconds": round(tot["sim_seconds"], 3),
        "scheduling_points": tot["steps"],
        "context_switches": tot["switches"],
        "preemptions": tot["preemptions"],
        "distinct_schedules": tot["distinct_schedules"],
        "distinct_schedules_measure": "hash of the sequence of (thread, position) switches of the run",
        "switch_site_pairs_max_per_worker": tot["switch_pairs"],
        "switch_site_pairs_measure": "distinct (code site switched from, code site switched to) pairs, hashed to 16 bits",
        "strategies": dict(zip(["random-walk", "plain-access", "pct", "hot-site", "sequential"], strategies)),
        "faults_injected": faults,
        "conditions_reached": probes,
        "conditions_not_reached": missing,
        "determinism_selfchecks": tot["selfchecks"],
        "runs_without_verdict": tot["infra"],
        "real_components": conf.get("real", CONF["real"]),
        "stub_components": conf.get("stub", CONF["stub"]),
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": CONF["assumptions"] + conf.get("assumptions", []), "wall_s": round(time.time() - T0, 1),
          "violations": len(reported)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say(f"{prop} {tier}: {tot['runs']} runs ({tot['distinct_nontrivial']} distinct non-trivial) in {wall:.0f}s after {tb:.0f}s build, "
        f"{tot['sim_seconds']:.1f} simulated s, {tot['switches']} switches, faults {sum(faults.values())}, {tot['selfchecks']} self-checks")
    for cls, msg, path in reported:
        say(f"--- {cls}\n{msg}")
        say(f"VIOLATION property={prop} replay={path}")
        code = 1
    for e in errors:
        say("ERROR: " + e)
    if errors and not reported:
        code = 2
    if os.environ.get("SIM_KEEP"):
        say("kept " + wd)
    else:
        shutil.rmtree(wd, ignore_errors=True)
    prune(os.path.join(BUILD, "bin"), 60)
    sys.exit(code)


if __name__ == "__main__":
    main()
