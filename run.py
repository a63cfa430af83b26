#!/usr/bin/env python3
"""Runs the monitors that decide one property against /repo's current working tree.

usage: run.py <property> [--tier quick|thorough]      decide a property
       run.py --replay <file>                          rerun the execution recorded in a replay file
       run.py --dev <property> ...                     several properties, short output

exit 0: held on everything executed; 1: VIOLATION; 2: no verdict (build failure, too little observed, ...)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
from checks import CHECKS, TUS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))
print_lock = threading.Lock()


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "examples"), SRC):
        for root, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, base).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


class Finding(Exception):
    """a part of the public interface that does not compile"""


PROBE = """
#include <cstdio>
#include "bpptree/bpptree.hpp"
int main() {
    bpptree::BppTree<char, 512, 512, 3>::mixins<>::Transient t;
    int n = 0;
    for (; t.depth() == 1 && n < 600; ++n) t.push_back('x');
    std::printf("%d", 513 - n);
}
"""
HDR = {}   # tree hash -> bytes that a node needs besides its elements
hdr_lock = threading.Lock()


def node_header(bdir):
    """the budgets of the trees are chosen for a few elements per node, whatever else the nodes contain"""
    with hdr_lock:
        f = os.path.join(bdir, "node_header")
        if bdir not in HDR:
            if not os.path.exists(f):
                exe = "%s.%d.exe" % (f, os.getpid())
                cmd = ["g++", "-std=c++17", "-x", "c++", "-", "-I" + os.path.join(REPO, "include"), "-o", exe]
                n = 8
                if subprocess.run(cmd, input=PROBE, text=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                    try:
                        out = subprocess.run([exe], stdout=subprocess.PIPE, timeout=20, text=True).stdout
                    except subprocess.TimeoutExpired:
                        out = ""
                    if out.isdigit() and 8 < int(out) < 200:
                        n = (int(out) + 7) // 8 * 8
                    os.unlink(exe)
                tmp = "%s.%d.tmp" % (f, os.getpid())
                with open(tmp, "w") as fh:
                    fh.write(str(n))
                os.replace(tmp, f)
            with open(f) as fh:
                HDR[bdir] = int(fh.read())
        return HDR[bdir]


def command(tu, out, header=8):
    t = TUS[tu]
    return [t.get("cxx", "clang++"), "-std=" + t.get("std", "c++17"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "examples"), "-I" + SRC] + \
        ["-DNODE_HDR=%d" % header] + t["flags"] + [os.path.join(SRC, t["src"]), "-o", out] + t.get("link", [])


def build(tu, bdir):
    key = hashlib.sha256(json.dumps(command(tu, "x")).encode()).hexdigest()[:12]
    out = os.path.join(bdir, tu + "-" + key)
    if os.path.exists(out):
        return out
    tmp = "%s.%d.tmp" % (out, os.getpid())
    header = node_header(bdir)
    for more in (0, 8, 24, 64):
        p = subprocess.run(command(tu, tmp, header + more), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=840)
        if p.returncode == 0 or not re.search(r"(leaf|internal)_node_size", p.stdout):
            break
    if p.returncode != 0:
        f = TUS[tu].get("finding")
        if f and re.search(f[2], p.stdout):
            err = re.search(r"error: [^\n]*", p.stdout)
            raise Finding("%s|%s|%s" % (f[0], f[1], err.group(0)[:200] if err else "does not compile"), tu)
        raise BuildError("%s does not compile:\n%s" % (tu, p.stdout[:3000]))
    os.replace(tmp, out)
    return out


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=12:detect_leaks=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0:symbolize=1:handle_sigfpe=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=12",
    "MSAN_OPTIONS": "exitcode=12",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=12:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=12",
})
SYMB = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
if SYMB:
    ENV["ASAN_SYMBOLIZER_PATH"] = ENV["MSAN_SYMBOLIZER_PATH"] = SYMB


def execute(binary, args, cpu, prefix=()):
    """returns (kind, result, stderr_tail): kind is held | violation | crash | hang | noresult"""
    wall = cpu * 6 + 60
    p = subprocess.Popen(list(prefix) + [binary] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, preexec_fn=limits(cpu), start_new_session=True)
    timed_out = False
    try:
        out, err = p.communicate(timeout=wall)
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
    out = out.decode(errors="replace")
    err = err.decode(errors="replace")
    res = None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            try:
                r = json.loads(line[7:])
            except ValueError:
                continue
            if res is None or res.get("verdict") == "held":
                res = r
    m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|WARNING: \w+Sanitizer[^\n]*|[^\n]*runtime error[^\n]*|==\d+== (?:Invalid|Conditional|Use of)[^\n]*)", err)
    what = m.group(1)[:300] if m else err.strip()[-300:]
    sm = re.findall(r"SUMMARY: [^\n]*", err)
    if sm:
        what += " | " + sm[0][:300]
    rc = p.returncode
    if timed_out:
        return "timeout", res, what
    if rc == 10 and res and res["verdict"] == "violation":
        return "violation", res, ""
    if rc == 11 or rc == -signal.SIGXCPU or (rc == -signal.SIGKILL and res and res["verdict"] == "hang"):
        return "hang", res, what
    if rc == 0 and res and res["verdict"] == "held":
        return "held", res, ""
    if rc == 3 or rc == 4:
        return "noresult", res, err[-500:]
    return "crash", res, what


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(C\d+) key=(\S+) (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


class Outcome:
    def __init__(self):
        self.lock = threading.Lock()
        self.violations = []   # (desc, replay dict)
        self.problems = []
        self.results = []      # (job, result)
        self.findings = []     # ("property|key|message", tu)


def job_args(job, seed):
    return ["--seed", str(seed), "--tags", job["tags"], "--episodes", str(job["episodes"]), "--scale", str(job.get("scale", 100))] + job.get("extra", [])


def run_job(job, seed, binary, oc):
    cpu = job.get("cpu", 200)
    args = job_args(job, seed)
    prefix = job.get("prefix", [])
    kind, res, what = execute(binary, args, cpu, prefix)
    if kind in ("hang", "timeout"):
        # one more try of the stuck episode alone, with a budget it should not come close to
        ep = res.get("episode", -1) if res else -1
        again = args + (["--only", str(ep)] if ep >= 0 and "cfg" in (res or {}) else [])
        kind2, res2, what2 = execute(binary, again, cpu, prefix)
        if kind2 == "hang":
            kind, res, what = "violation", res2 or res, "does not terminate"
            if res is not None:
                res["msg"] = "operation does not terminate"
        elif kind2 == "held":
            with oc.lock:
                oc.problems.append("%s seed %d: exceeded its time once (load?)" % (job["tu"], seed))
            return
        else:
            kind, res, what = kind2, res2, what2
    if kind == "held":
        with oc.lock:
            oc.results.append((job, seed, res))
        return
    rep = {"tu": job["tu"], "args": args, "prefix": prefix, "kind": kind, "result": res, "what": what, "cpu": cpu}
    if kind in ("violation", "crash"):
        msg = (res or {}).get("msg", "") or what
        desc = "%s %s: op %s: %s" % ((res or {}).get("cfg", job["tu"]), kind, (res or {}).get("op", "?"), msg)
        with oc.lock:
            oc.violations.append((desc, rep))
    else:
        with oc.lock:
            oc.problems.append("%s seed %d: %s %s" % (job["tu"], seed, kind, what[:400]))


def decide(prop, tier):
    t0 = time.time()
    try:
        base_seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        base_seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    chk = CHECKS[prop]
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    bdir = os.path.join(BUILD, tree_hash())
    os.makedirs(bdir, exist_ok=True)
    oc = Outcome()
    tus = sorted({j["tu"] for j in jobs}, key=lambda t: -TUS[t].get("cost", 20))
    stop = threading.Event()
    with cf.ThreadPoolExecutor(JOBS) as pool:
        pending = {}
        for tu in tus:
            pending[pool.submit(build, tu, bdir)] = ("build", tu)
        while pending:
            done, _ = cf.wait(list(pending), return_when=cf.FIRST_COMPLETED)
            for f in done:
                what = pending.pop(f)
                if what[0] == "build":
                    try:
                        binary = f.result()
                    except Finding as e:
                        oc.findings.append(e.args)
                        continue
                    except BuildError as e:
                        oc.problems.append(str(e))
                        continue
                    except subprocess.TimeoutExpired:
                        oc.problems.append("compiling %s took too long" % what[1])
                        continue
                    for j in jobs:
                        if j["tu"] != what[1]:
                            continue
                        j = dict(j)
                        if tier == "thorough":
                            j["episodes"] = j.get("thorough_episodes", j["episodes"] * 12)
                            j["cpu"] = j.get("thorough_cpu", 900)
                            n = j.get("thorough_seeds", 4)
                        else:
                            n = j.get("seeds", 1)
                        for s in range(n):
                            if stop.is_set():
                                break
                            pending[pool.submit(run_job, j, base_seed * 1000003 + s * 7919 + 17, binary, oc)] = ("job", j["tu"])
                else:
                    f.result()
            if oc.violations and tier == "quick" and not stop.is_set():
                # one witness decides the verdict
                stop.set()
                for f in list(pending):
                    if f.cancel():
                        pending.pop(f)
    return finish(prop, tier, base_seed, chk, oc, time.time() - t0)


def finish(prop, tier, seed, chk, oc, wall):
    known_file = load_known()
    violations = list(oc.violations)
    known_seen = set()
    agg = {"evaluations": 0, "steps": 0, "episodes": 0, "aborted": 0}
    contexts, ops, counters, foreign, samples = set(), {}, {}, {}, []
    per_tu = {}
    # histories of one group and seed are the same whatever the build: so are their digests
    digests = {}
    compared = 0
    for job, s, r in oc.results:
        for k in [k for k in r["counters"] if k.startswith("digest ")]:
            d = r["counters"].pop(k)
            first = digests.setdefault((job.get("group"), s, k), (d, job["tu"]))
            compared += 1
            if first[0] != d:
                msg = "history %s of seed %d has other results in build %s than in build %s" % (k[7:], s, job["tu"], first[1])
                violations.append((msg, {"tu": job["tu"], "args": job_args(job, s), "prefix": [], "kind": "violation", "result": {"msg": msg}, "what": msg, "cpu": job.get("cpu", 200)}))
    for text, tu in oc.findings:
        p, key, msg = text.split("|", 2)
        if (p, key) in known_file:
            known_seen.add((key, known_file[(p, key)]))
        else:
            violations.append((msg, {"tu": tu, "args": [], "prefix": [], "kind": "violation", "result": {"msg": msg, "key": key}, "what": msg, "cpu": 100}))
    if compared:
        counters["digests compared between builds"] = compared
    for job, s, r in oc.results:
        for k in agg:
            agg[k] += r.get(k, 0)
        contexts.update(r["contexts"])
        for src, dst in ((r["ops"], ops), (r["counters"], counters), (r["foreign"], foreign)):
            for k, v in src.items():
                if k.startswith("max "):
                    dst[k] = max(dst.get(k, 0), v)
                else:
                    dst[k] = dst.get(k, 0) + v
        per_tu[job["tu"]] = per_tu.get(job["tu"], 0) + r.get("steps", 0)
        samples += r["samples"][:1]
        for k in r.get("known", []):
            p, key, msg = k.split("|", 2)
            if p != prop:
                continue
            if (prop, key) in known_file:
                known_seen.add((key, known_file[(prop, key)]))
            else:
                violations.append((msg, {"tu": job["tu"], "args": job_args(job, s), "prefix": job.get("prefix", []), "kind": "violation", "result": {"msg": msg, "key": key}, "what": msg, "cpu": job.get("cpu", 200)}))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": agg["steps"],
            "distinct_nontrivial": len(contexts),
            "rule": chk["rule"],
            "samples": samples[:8] or ["(none: stopped at a violation)"],
            "oracle_comparisons": agg["evaluations"],
            "histories": agg["episodes"],
            "histories_given_up_for_other_properties": agg["aborted"],
            "operations_by_kind": dict(sorted(ops.items())),
            "monitor_counters": dict(sorted(counters.items())),
            "mismatches_of_other_properties": foreign,
            "operations_by_build": per_tu,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(violations),
    }
    path = os.path.join(EVID, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for key, text in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for p in oc.problems[:5]:
        print("NOTE: " + p, file=sys.stderr)
    if violations:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, (desc, rep) in enumerate(violations[:3]):
            rp = os.path.join(rdir, "%s-%d.json" % (prop, i))
            rep["property"] = prop
            rep["description"] = desc
            with open(rp, "w") as f:
                json.dump(rep, f, indent=1)
            print("  " + desc[:900])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if oc.problems and not chk.get("tolerant"):
        print("no verdict for %s: %s" % (prop, oc.problems[0][:2000]))
        return 2
    total = agg["episodes"] + agg["aborted"]
    if agg["steps"] < chk.get("min_steps", 1000) or (total and agg["aborted"] * 2 > total):
        print("no verdict for %s: too little observed (%d operations, %d of %d histories given up: %s)" % (prop, agg["steps"], agg["aborted"], total, list(foreign)[:3]))
        return 2
    for c, least in chk.get("min_counters", {}).items():
        got = counters.get(c, ops.get(c, 0))
        if got < least:
            print("no verdict for %s: monitor counter '%s' is %d (< %d)" % (prop, c, got, least))
            return 2
    print("held: %s on %d operations in %d histories, %d oracle comparisons, %d distinct contexts (%.0f s)" % (prop, agg["steps"], agg["episodes"], agg["evaluations"], len(contexts), wall))
    return 0


def replay(path):
    rep = json.load(open(path))
    bdir = os.path.join(BUILD, tree_hash())
    os.makedirs(bdir, exist_ok=True)
    try:
        binary = build(rep["tu"], bdir)
    except Finding as e:
        print(e.args[0])
        return 1
    args = list(rep["args"])
    r = rep.get("result") or {}
    if isinstance(r.get("episode"), int) and r["episode"] >= 0:
        args += ["--only", str(r["episode"])]
    print(" ".join(rep.get("prefix", []) + [binary] + args))
    kind, res, what = execute(binary, args, rep.get("cpu", 200), rep.get("prefix", []))
    print(kind, json.dumps(res)[:3000] if res and kind != "held" else "", what)
    return 0 if kind == "held" else 1


def prune():
    if not os.path.isdir(BUILD):
        return
    cur = tree_hash()
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d not in ("replay", cur)]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for d in dirs[2:]:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    dev = False
    props = []
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 2
        elif a[i] == "--setup":
            i += 1
        elif a[i] == "--dev":
            dev = True
            i += 1
        else:
            props.append(a[i])
            i += 1
    if "--setup" in a:
        for tool in ("clang++", "valgrind"):
            if not shutil.which(tool):
                print("missing tool: " + tool)
                sys.exit(2)
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        sys.exit(0)
    if not props or any(p not in CHECKS for p in props) or tier not in ("quick", "thorough"):
        print(__doc__)
        sys.exit(2)
    prune()
    if dev:
        worst = 0
        for p in props:
            rc = decide(p, tier)
            print("== %s exit %d" % (p, rc), flush=True)
            worst = max(worst, rc)
        sys.exit(worst)
    sys.exit(decide(props[0], tier))


if __name__ == "__main__":
    main()
