#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTR] [--keep]

Decides one property of /repo by symbolic execution of its bitcode (engine/sx).
Exit 0: held on everything explored.  Exit 1: a violation, reproduced natively.
Exit 2: no answer (build failure, exploration incomplete, vacuous, engine and
native run disagree)."""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MM_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
BUILD = os.path.join(V, "build")
SX = os.path.join(BUILD, "sx")
CF = ("-O1 -Xclang -disable-llvm-passes -fno-builtin -g -D__NO_CTYPE -U_FORTIFY_SOURCE "
      "-emit-llvm -c -w").split()
NF = "-g -O1 -w -fsanitize=address -fno-omit-frame-pointer -U_FORTIFY_SOURCE".split()


class Fail(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise Fail("%s failed:\n%s" % (" ".join(cmd)[:300], p.stdout.decode("latin1")[-3000:]))
    return p.stdout


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    srcs = sorted(glob.glob(V + "/engine/*"))
    h = hashlib.sha256()
    for s in srcs:
        if s.endswith((".cpp", ".h", ".inc")):
            h.update(open(s, "rb").read())
    stamp = h.hexdigest()
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            if os.path.exists(SX) and open(SX + ".stamp").read() == stamp:
                return
        except OSError:
            pass
        flags = subprocess.check_output(["llvm-config-18", "--cppflags"]).decode().split()
        ld = subprocess.check_output(["llvm-config-18", "--ldflags"]).decode().split()
        sh(["g++", "-O2", "-w", "-std=c++17"] + flags +
           [V + "/engine/expr.cpp", V + "/engine/sx.cpp", "-o", SX + ".new"] + ld + ["-lLLVM-18", "-lz3"])
        os.rename(SX + ".new", SX)
        open(SX + ".stamp", "w").write(stamp)


def compile_repo(tmp):
    """the program under test as one bitcode file, from the current tree"""
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    if not srcs:
        raise Fail("no sources in %s/src" % REPO)
    outs = []

    def one(s):
        o = tmp + "/" + os.path.basename(s)[:-2] + ".bc"
        sh(["clang-18"] + CF + ["-I" + REPO + "/src", "-Dmain=mm_main", s, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, srcs))
        libs = [tmp + "/libc.bc_", tmp + "/rt.bc_"]
        a = ex.submit(sh, ["clang-18"] + CF + ["-I" + V + "/harness", V + "/engine/libc.c", "-o", libs[0]])
        b = ex.submit(sh, ["clang-18"] + CF + ["-I" + V + "/harness", V + "/harness/rt_sym.c", "-o", libs[1]])
        a.result(), b.result()
    sh(["llvm-link-18"] + outs + ["-o", tmp + "/prog.bc_"])
    return libs


class Native:
    """ASan build of the real sources, linked with a harness on demand"""

    def __init__(self, tmp):
        self.tmp, self.lock, self.objs, self.bins, self.err = tmp, threading.Lock(), None, {}, None

    def build(self):
        d = self.tmp + "/nat"
        os.makedirs(d, exist_ok=True)
        srcs = sorted(glob.glob(REPO + "/src/*.c"))

        def one(s):
            o = d + "/" + os.path.basename(s)[:-2] + ".o"
            sh(["clang-18"] + NF + ["-I" + REPO + "/src", "-Dmain=mm_main", "-c", s, "-o", o])
            return o
        try:
            with ThreadPoolExecutor(8) as ex:
                objs = list(ex.map(one, srcs))
            o = d + "/rt_native.o"
            sh(["clang-18"] + NF + ["-I" + V + "/harness", "-c", V + "/harness/rt_native.c", "-o", o])
            self.objs = objs + [o]
        except Fail as e:
            self.err = e

    def binary(self, job):
        with self.lock:
            if self.err:
                raise self.err
            key = job.key()
            if key not in self.bins:
                b = self.tmp + "/nat/h%d" % len(self.bins)
                sh(["clang-18"] + NF + job.dflags() + ["-I" + V + "/harness", "-I" + REPO + "/src", job.path()] + self.objs +
                   ["-Wl,--wrap=rename,--wrap=remove,--wrap=fopen", "-lm", "-o", b])
                self.bins[key] = b
            return self.bins[key]

    def run(self, job, hexin, timeout=150):
        b = self.binary(job)
        d = tempfile.mkdtemp(prefix="nr", dir=self.tmp)
        open(d + "/inputs", "wb").write(bytes.fromhex(hexin))
        env = dict(os.environ, LC_ALL="C",
                   ASAN_OPTIONS="exitcode=99:detect_leaks=0:redzone=512:max_redzone=2048:allocator_may_return_null=1:detect_stack_use_after_return=0")
        try:
            p = subprocess.run([b, str(job.variant), d + "/inputs", d], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               stdin=subprocess.DEVNULL, timeout=timeout, env=env)
            rc, out, err = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired:
            rc, out, err = 11, "CRASH no end within %d s\n" % timeout, ""
        if rc == 99 or rc < 0:
            out += "CRASH %s\n" % ("sanitizer report" if rc == 99 else "signal %d" % -rc)
            rc = 11
        m = re.search(r"DIGEST (\d+)", out)
        res = dict(rc=rc, out=out, err=err, digest=int(m.group(1)) if m else None, ended="\nEND" in out,
                   findings=re.findall(r"FINDING (\S+)", out))
        shutil.rmtree(d, ignore_errors=True)
        return res


procs, stop = [], [False]  # running engines; a violation is confirmed, nothing else needs to be known


def stop_all():
    stop[0] = True
    for p in procs:
        try:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def run_job(job, tmp, libs, deadline):
    n = job.name()
    hb, out = "%s/%s.hbc" % (tmp, n), "%s/%s.json" % (tmp, n)
    sh(["clang-18"] + CF + job.dflags() + ["-I" + V + "/harness", "-I" + REPO + "/src", job.path(), "-o", hb])
    cmd = [SX, "--prog", tmp + "/prog.bc_"]
    for l in libs + [hb]:
        cmd += ["--lib", l]
    left = max(5, int(deadline - time.time()))
    cmd += ["--out", out, "--variant", str(job.variant), "--jobs", str(job.par), "--time", str(left),
            "--maxviol", "3", "--samples", str(job.samples)]
    if job.steps:
        cmd += ["--steps", str(job.steps)]
    t = time.time()
    if stop[0]:
        raise Fail("%s not run: stopped" % n)
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    procs.append(p)
    err = p.communicate()[1]
    if p.returncode:
        raise Fail("engine failed on %s (%d): %s" % (n, p.returncode, err.decode("latin1")[-1500:]))
    r = json.load(open(out))
    parts = [r]
    if "parts" in r:
        parts = [json.load(open("%s.%d" % (out, i))) for i in range(r["parts"])]
    return job, parts, time.time() - t


def load_known(prop):
    p = V + "/known-findings.json"
    return {f["id"]: f for f in json.load(open(p))["findings"] if f["property"] == prop and not f.get("fixed")} if os.path.exists(p) else {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the engine only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--all", action="store_true", help="go on after a confirmed violation")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build_engine()
        return 0
    import jobs as J
    P = J.PROPS[a.prop]
    todo = [j for j in P.jobs(a.tier) if not a.only or a.only in j.name()]
    tmp = tempfile.mkdtemp(prefix="mmv-%s-" % a.prop)
    try:
        return check(a, P, todo, tmp, t0)
    except Fail as e:
        print("ERROR property=%s %s" % (a.prop, e))
        return 2
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def check(a, P, todo, tmp, t0):
    limit = 780 if a.tier == "quick" else 6 * 3600
    deadline = t0 + limit
    build_engine()
    libs = compile_repo(tmp)
    nat = Native(tmp)
    nt = threading.Thread(target=nat.build)
    nt.start()
    results, errors = [], []
    # a job occupies `par` of the slots
    slots = threading.Condition()
    free = [os.cpu_count() or 8]

    def worker(job):
        need = min(job.par, os.cpu_count() or 8)
        with slots:
            while free[0] < need:
                slots.wait()
            free[0] -= need
        try:
            res = run_job(job, tmp, libs, deadline)
            if not a.all and not stop[0]:
                for v in sorted((v for r in res[1] for v in r["violations"]), key=lambda v: len(v["inputs"]))[:1]:
                    nt.join()
                    if nat.run(job, "".join(h for _, h in v["inputs"]))["rc"] in (10, 11):
                        stop_all()
            return res
        finally:
            with slots:
                free[0] += need
                slots.notify_all()
    with ThreadPoolExecutor(max(1, len(todo))) as ex:
        futs = [ex.submit(worker, j) for j in sorted(todo, key=lambda j: -j.weight)]
        for f in futs:
            try:
                results.append(f.result())
            except Fail as e:
                errors.append(str(e))
    nt.join()
    keys = ("paths", "forks", "instructions", "queries", "cached", "sat", "unsat", "unknown", "asserts", "assert_queries",
            "domain_decided", "assume_killed", "incomplete")
    tot = {k: 0 for k in keys}
    solver, maxq, covers, asserts, funcs = 0.0, 0.0, {}, {}, set()
    viol, samples, findings, percheck = [], [], {}, []
    for job, parts, dt in results:
        jc = {}
        for r in parts:
            for k in keys:
                tot[k] += r[k]
            solver += r["solver_s"]
            maxq = max(maxq, r["max_query_s"])
            for k, n in r["covers"].items():
                covers[k] = covers.get(k, 0) + n
                jc[k] = jc.get(k, 0) + n
            for k, n in r["assertions"].items():
                if not k.startswith("internal:"):
                    asserts[k] = asserts.get(k, 0) + n
            funcs |= set(r["functions"])
            viol += [(job, v) for v in r["violations"]]
            samples += [(job, s) for s in r["samples"]]
            for k, (n, ex) in r["findings"].items():
                c = findings.setdefault(k, [0, job, ex])
                c[0] += n
            if r["incomplete"]:
                errors.append("%s incomplete: %s" % (job.name(), "; ".join(r["incomplete_why"][:3])))
        percheck.append({"job": job.name(), "paths": sum(r["paths"] for r in parts), "wall_s": round(dt, 2)})
        if not any(r["violations"] for r in parts):
            for c in job.covers:
                if c not in jc:
                    errors.append("vacuous: %s never reached %r" % (job.name(), c))
    if a.v:
        for p in sorted(percheck, key=lambda p: -p["wall_s"]):
            print("   ", p)
        print("    covers", json.dumps(covers, indent=None))
    # --- violations: replayed against the real code
    known = load_known(a.prop)
    confirmed, unconfirmed = [], []
    rdir = V + "/replays"
    reports = []
    for job, v in viol:
        reports.append((job, v["kind"], v["msg"], v["where"], "".join(h for _, h in v["inputs"]), v["inputs"]))
    for fid, (n, job, ex) in findings.items():
        if fid not in known:
            reports.append((job, "finding", fid, "", ex, []))
    # different jobs, then different messages first; at most 12 are replayed
    seen, order = set(), []
    for r in sorted(reports, key=lambda r: len(r[4])):
        k = (r[0].name(), r[1], r[2])
        if k not in seen:
            seen.add(k)
            order.append(r)
    for job, kind, msg, where, hexin, inputs in order[:12]:
        res = nat.run(job, hexin)
        ok = res["rc"] in (10, 11) or (kind == "finding" and msg in res["findings"])
        d = "%s/%s-%d" % (rdir, a.prop, len(confirmed) + len(unconfirmed))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/inputs", "wb").write(bytes.fromhex(hexin))
        json.dump({"property": a.prop, "harness": os.path.basename(job.path()), "defs": job.dflags(), "variant": job.variant,
                   "kind": kind, "message": msg, "where": where,
                   "inputs": [[n, bytes.fromhex(h).decode("latin1")] for n, h in inputs],
                   "native": {"rc": res["rc"], "out": res["out"][-2000:], "err": res["err"][-4000:]}},
                  open(d + "/violation.json", "w"), indent=1)
        open(d + "/replay.sh", "w").write("#!/bin/sh\n# runs the counterexample against the current tree\nexec python3 %s/bin/replay.py %s\n" % (V, d))
        os.chmod(d + "/replay.sh", 0o755)
        (confirmed if ok else unconfirmed).append((d, kind, msg, where, inputs, res))
    # --- sampled paths: the same inputs give the same output in the native program
    validated = 0
    sdesc = []
    if not confirmed and not errors and not unconfirmed:
        def val(js):
            job, s = js
            return job, s, nat.run(job, "".join(h for _, h in s["inputs"]))
        with ThreadPoolExecutor(8) as ex:
            for job, s, res in ex.map(val, samples[: P.max_samples]):
                if res["rc"] or res["digest"] != int(s["digest"]):
                    errors.append("engine and native run disagree on %s %s (rc %s)\n%s%s" % (job.name(), s["inputs"], res["rc"], res["out"][-600:], res["err"][-600:]))
                    break
                validated += 1
                if len(sdesc) < 6:
                    sdesc.append({"job": job.name(), "inputs": [[n, bytes.fromhex(h).decode("latin1")] for n, h in s["inputs"]][:60],
                                  "output_bytes_compared": s["n"]})
    if not asserts and not confirmed and not errors:
        errors.append("no assertion was evaluated")
    own = set(l.split()[-1] for l in sh(["llvm-nm-18", "--defined-only", tmp + "/prog.bc_"]).decode().splitlines() if l)
    repo_funcs = sorted(f for f in funcs if f in own)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["forks"], "transitions": tot["domain_decided"] + tot["queries"] + tot["cached"],
            "traces_validated_against_impl": validated, "samples": sdesc,
            "paths_decided": tot["paths"], "instructions_executed": tot["instructions"],
            "assertion_checks": tot["asserts"], "assertions": asserts,
            "solver_queries": tot["queries"], "solver_sat": tot["sat"], "solver_unsat": tot["unsat"],
            "solver_unknown": tot["unknown"], "solver_cached": tot["cached"], "symbolic_assertion_queries": tot["assert_queries"],
            "decided_by_certified_value_tables": tot["domain_decided"],
            "solver_s": round(solver, 3), "max_query_s": round(maxq, 3),
            "covers": covers, "functions_encoded": len(repo_funcs), "functions": repo_funcs,
            "bounds": P.bounds(a.tier), "jobs": percheck, "exhaustive": not errors,
            "known_findings_seen": {k: v[0] for k, v in findings.items()},
        },
        "assumptions": P.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % a.prop, "w"), indent=1)
    for fid in sorted(findings):
        if fid in known:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, known[fid]["what"]))
    for d, kind, msg, where, inputs, res in confirmed:
        print("VIOLATION property=%s replay=%s" % (a.prop, d))
        print("    %s: %s at %s" % (kind, msg, where))
        for n, h in inputs[:40]:
            print("    %s = %r" % (n, bytes.fromhex(h).decode("latin1")))
    for d, kind, msg, where, inputs, res in unconfirmed:
        print("UNCONFIRMED property=%s replay=%s: %s %s at %s (native rc %s)" % (a.prop, d, kind, msg, where, res["rc"]))
        for n, h in inputs[:40]:
            print("    %s = %r" % (n, bytes.fromhex(h).decode("latin1")))
    for e in errors if not (confirmed and stop[0]) else []:
        print("ERROR property=%s %s" % (a.prop, e))
    print("%s %s: %d paths, %d forks, %d queries (%.2f s solver), %d assertion checks, %d traces validated, %.1f s" % (
        a.prop, a.tier, tot["paths"], tot["forks"], tot["queries"], solver, tot["asserts"], validated, time.time() - t0))
    if confirmed:
        return 1
    return 2 if errors or unconfirmed else 0


if __name__ == "__main__":
    sys.exit(main())
