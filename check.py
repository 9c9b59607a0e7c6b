#!/usr/bin/env python3
"""Decides one property of libsml by symbolic execution of the real code.

check.py ID [--tier quick|thorough]   run the check of property ID (exit 0 held, 1 VIOLATION, 2 no answer)
check.py --replay FILE                run a recorded counterexample against the real code again
check.py --job HARNESS NAME=VALUE...  run one job and print its result (development)
"""
import sys, os, json, time, subprocess, tempfile, shutil, re, glob, hashlib, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYMX = os.path.join(ROOT, "build", "symx")
sys.path.insert(0, ROOT)
import props

OPT = "opt-18" if shutil.which("opt-18") else "opt"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
INC = ["-I" + os.path.join(REPO, "sml/include"), "-I" + os.path.join(ROOT, "harness"), "-I" + os.path.join(REPO, "examples")]
# code the default compiler only warns about has to compile here as well
LAX = ["-w"] + ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type")]
BCF = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-std=gnu99", "-DSYMX", "-ffp-contract=off"] + LAX + INC
SAN = {"asan": ["-fsanitize=address", "-fsanitize=shift-exponent,bounds,integer-divide-by-zero,unreachable,return,vla-bound", "-fno-sanitize-recover=all"],
       "msan": ["-fsanitize=memory"]}
NATF = ["-O1", "-g", "-std=gnu99", "-ffp-contract=off", "-fno-builtin"] + LAX + INC
WRAP = ["read", "write", "select", "pselect", "poll", "open", "close", "uuid_generate", "uuid_generate_random", "uuid_generate_time", "getrandom", "getentropy", "arc4random_buf",
        "malloc", "calloc", "realloc", "free", "strdup", "strndup", "exit", "_exit", "printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "perror", "vprintf", "vfprintf",
        "putc", "putchar_unlocked", "fwrite", "dprintf", "readv", "writev", "usleep", "nanosleep", "sleep", "arc4random"]
WORKERS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return p.stdout


def pmap(fs):
    with ThreadPoolExecutor(WORKERS) as ex:
        for f in [ex.submit(*f) for f in fs]:
            f.result()


class Builder:
    """compiles the library (once per set of defines) and the harnesses from the current sources"""

    def __init__(self, tmp):
        self.tmp, self.libs, self.nlibs, self.bins, self.lock = tmp, {}, {}, {}, threading.RLock()

    def sources(self):
        return sorted(glob.glob(os.path.join(REPO, "sml/src/*.c")))

    def path(self, *a):
        d = os.path.join(self.tmp, *a[:-1])
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, a[-1])

    def opt_bc(self, src, defs, out):
        run(["clang"] + BCF + defs + ["-c", "-o", out + ".raw", src])
        # inside the checksum code, turn data-dependent branches into data flow: a bit-by-bit implementation has 2^n paths otherwise
        passes = ["-phi-node-folding-threshold=20", "-two-entry-phi-node-folding-threshold=20", "-passes=mem2reg,simplifycfg,instsimplify"] if "crc" in os.path.basename(src) else ["-passes=mem2reg"]
        run([OPT] + passes + ["-o", out, out + ".raw"])

    def bitcode(self, name):
        h = props.HARNESSES[name]
        defs = h.get("defs", [])
        key = "_".join(defs) or "std"
        fs = []
        lib = [(s, self.path("bc", hashlib.md5(key.encode()).hexdigest()[:6], os.path.basename(s) + ".bc")) for s in self.sources()]
        with self.lock:
            if key not in self.libs:
                self.libs[key] = True
                fs += [(self.opt_bc, s, defs, o) for s, o in lib]
            rt = self.path("bc", "rt.bc")
            if "rt" not in self.libs:
                self.libs["rt"] = True
                fs.append((self.opt_bc, os.path.join(ROOT, "harness/rt_sym.c"), [], rt))
            hb = self.path("bc", name + ".h.bc")
            fs.append((self.opt_bc, os.path.join(ROOT, "harness", h["src"]), defs, hb))
            extra = []
            for i, (s, d) in enumerate(h.get("extra", [])):
                o = self.path("bc", "%s.x%d.bc" % (name, i))
                extra.append(o)
                fs.append((self.opt_bc, os.path.join(REPO, s), d, o))
            pmap(fs)
            out = self.path("bc", name + ".bc")
            run([LINK, "-o", out, hb] + extra + [o for _, o in lib] + [rt])
            return out

    def native(self, name, san="asan"):
        with self.lock:
            if (name, san) in self.bins:
                return self.bins[name, san]
            h = props.HARNESSES[name]
            defs = h.get("defs", [])
            key = ("_".join(defs) or "std", san)
            d = hashlib.md5(repr(key).encode()).hexdigest()[:6]
            lib = [(s, self.path("nat", d, os.path.basename(s) + ".o")) for s in self.sources()]
            cc = lambda s, df, o: run(["clang"] + NATF + SAN[san] + df + ["-c", "-o", o, s])
            fs = []
            if key not in self.nlibs:
                self.nlibs[key] = True
                fs += [(cc, s, defs, o) for s, o in lib]
            rt = self.path("nat", "rt.%s.o" % san)
            if ("rt", san) not in self.nlibs:
                self.nlibs["rt", san] = True
                fs.append((lambda: run(["clang"] + NATF + ["-c", "-o", rt, os.path.join(ROOT, "harness/rt_native.c")] + (SAN[san] if san == "msan" else [])),))
            ho = self.path("nat", "%s.%s.h.o" % (name, san))
            fs.append((cc, os.path.join(ROOT, "harness", h["src"]), defs, ho))
            extra = []
            for i, (s, df) in enumerate(h.get("extra", [])):
                o = self.path("nat", "%s.%s.x%d.o" % (name, san, i))
                extra.append(o)
                fs.append((cc, os.path.join(REPO, s), df, o))
            pmap(fs)
            one = self.path("nat", "%s.%s.all.o" % (name, san))
            run(["ld", "-r", "-o", one, ho] + extra + [o for _, o in lib])
            run(["objcopy"] + sum([["--redefine-sym", "%s=sxw_%s" % (w, w)] for w in WRAP], []) + [one])
            out = self.path("nat", "%s.%s" % (name, san))
            run(["clang"] + SAN[san] + ["-o", out, one, rt, "-lm"])
            self.bins[name, san] = out
            return out


ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=99", MSAN_OPTIONS="exit_code=99")


def native_run(binary, params, inputs, tmo=20):
    """one result line per input"""
    cmd = [binary, str(tmo)] + ["%s=%s" % kv for kv in params.items()]
    try:
        p = subprocess.run(cmd, input="".join(i + "\n" for i in inputs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=ENV, timeout=tmo * max(1, len(inputs)) + 60)
    except subprocess.TimeoutExpired:
        return ["?"] * len(inputs)
    out = p.stdout.split("\n")
    return [out[i] if i < len(out) else "?" for i in range(len(inputs))]


def ensure_engine():
    run(["bash", os.path.join(ROOT, "engine/build.sh"), os.path.join(ROOT, "build")])


PROCS, STOP = set(), threading.Event()


def stop_soon():
    """a violation was confirmed: do not start further jobs, and end the running ones shortly"""
    if STOP.is_set():
        return
    STOP.set()
    def kill():
        for p in list(PROCS):
            try:
                p.kill()
            except OSError:
                pass
    t = threading.Timer(8, kill)
    t.daemon = True
    t.start()


def symx(bc, job, tmp, seed, tier, samples, dump=None):
    out = os.path.join(tmp, "r%x.json" % (hash((id(job), threading.get_ident(), time.time())) & 0xffffffffffff))
    cmd = [SYMX, bc, "--entry", "harness", "--out", out, "--max-time", str(job.get("time", 150 if tier == "quick" else 900)), "--max-mem", str(job.get("mem", 3000)), "--max-errors", str(job.get("errors", 8)),
           "--samples", str(samples), "--seed", str(seed), "--lib-prefix", os.path.join(REPO, "sml/src")]
    if job.get("steps"):
        cmd += ["--max-steps", str(job["steps"])]
    if dump:
        cmd += ["--dump-dir", dump, "--dump-max", "6"]
    for k, v in job["p"].items():
        cmd += ["--param", "%s=%s" % (k, v)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    PROCS.add(p)
    try:
        _, err = p.communicate(timeout=job.get("time", 150 if tier == "quick" else 900) + 60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        rc, err = 8, "the executor did not stop in time"
    PROCS.discard(p)
    if STOP.is_set() and rc < 0:
        rc, err = 8, "stopped after a violation"
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            pass
        os.unlink(out)
    return r, rc, err[-2000:], time.time() - t


def known_findings():
    res = []
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r'known: property=(\S+) harness=(\S+) where=(\S*) msg="([^"]*)" (.*)', l)
        if m:
            res.append(dict(property=m[1], harness=m[2], where=dict(x.split("=") for x in m[3].split(",") if x), msg=m[4], text=m[5].strip()))
    return res


def is_known(known, pid, job, e):
    for k in known:
        if k["property"] == pid and k["harness"] == job["h"] and k["msg"] == e["msg"] and all(str(job["p"].get(a)) == b for a, b in k["where"].items()):
            return k
    return None


def jname(job):
    return job["h"] + ("(" + " ".join("%s=%s" % kv for kv in job["p"].items()) + ")" if job["p"] else "")


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    jobs = P["jobs"](tier)
    ensure_engine()
    tmp = tempfile.mkdtemp(prefix="sxchk")
    problems, violations, knowns, notes = [], [], {}, []
    tot = dict(paths=0, steps=0, forks=0, queries=0, z3_queries=0, witness_hits=0, cache_hits=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, asserts_by_simplification=0)
    funcs, marks, samples, joblog, incomplete = set(), {}, [], [], []
    validated = mismatches = foreign = 0
    rep = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, pid + "-*.json")):
        os.unlink(f)
    known = known_findings()
    try:
        B = Builder(tmp)
        need = sorted({j["h"] for j in jobs})
        bcs = {h: B.bitcode(h) for h in need}
        for h in need:
            B.native(h)
        accept = P.get("accept", props.NOLEAK)
        nsamp = 12 if tier == "quick" else 40
        deadline = t0 + (720 if tier == "quick" else 6 * 3600)
        lock = threading.Lock()
        seen = set()
        dumpdir = os.path.join(tmp, "dump") if tier == "thorough" else None
        if dumpdir:
            os.makedirs(dumpdir)

        def one(job):
            if time.time() > deadline:
                return job, None, 8, "no time left", 0, []
            if STOP.is_set():
                return job, None, 8, "stopped after a violation", 0, []
            if time.time() + job.get("time", 150 if tier == "quick" else 900) > deadline:
                job = dict(job, time=max(5, int(deadline - time.time())))
            dd = None
            if dumpdir:
                dd = os.path.join(dumpdir, hashlib.md5(jname(job).encode()).hexdigest()[:10]); os.makedirs(dd, exist_ok=True)
            r, rc, err, w = symx(bcs[job["h"]], job, tmp, seed, tier, nsamp, dd)
            nat = []
            if r:
                if r["samples"]:
                    nat = native_run(B.native(job["h"]), job["p"], [s[0] for s in r["samples"]], 120 if job["h"] == "huge" else 20)
            return job, r, rc, err, w, nat

        def confirm(job, e):
            """replay the counterexample against the real code"""
            r = native_run(B.native(job["h"]), job["p"], [e["input"]], 120 if job["h"] == "huge" else 20)[0]
            if r.startswith("FAIL"):
                return r, "asan"
            if e["kind"] in ("uninit", "use-after-return", "wild-pointer", "assert"):
                r2 = native_run(B.native(job["h"], "msan"), job["p"], [e["input"]], 120 if job["h"] == "huge" else 20)[0]
                if r2.startswith("FAIL"):
                    return r2, "msan"
            return r, None

        costs = {}
        try:
            costs = json.load(open(os.path.join(ROOT, "costs.json")))
        except (OSError, ValueError):
            pass
        order = sorted(jobs, key=lambda j: -costs.get(jname(j), j.get("cost", 0.5)))
        with ThreadPoolExecutor(WORKERS) as ex:
            for fut in as_completed([ex.submit(one, j) for j in order]):
                job, r, rc, err, w, nat = fut.result()
                nm = jname(job)
                if r is None:
                    (notes if rc == 8 else problems).append("%s: no result (%s)" % (nm, err.strip()[-300:]))
                    incomplete.append(nm)
                    continue
                for k in tot:
                    tot[k] += len(r[k]) if isinstance(r[k], list) else r[k]
                funcs |= set(r["functions"])
                for k, v in (r["marks"].items() if isinstance(r["marks"], dict) else r["marks"]):
                    marks[k] = marks.get(k, 0) + v
                joblog.append(dict(job=nm, paths=r["paths"], steps=r["steps"], z3_queries=r["z3_queries"], solver_s=round(r["solver_s"], 3), wall_s=round(w, 2), complete=r["complete"]))
                if r["unsupported"]:
                    problems.append("%s: the executor does not support: %s" % (nm, r["unsupported"]))
                if rc not in (0, 1, 2):
                    problems.append("%s: the executor failed (%d): %s" % (nm, rc, err.strip()[-300:]))
                bad = False
                for e in r["errors"]:
                    k = is_known(known, pid, job, e)
                    if k:
                        c, how = confirm(job, e)
                        if how:
                            knowns[k["text"]] = k
                        else:
                            problems.append("%s: a known finding is not reproduced by the real code: %s" % (nm, c))
                        continue
                    if not accept(e):
                        foreign += 1
                        bad = True
                        continue
                    bad = True
                    key = (e["kind"], e["msg"], e["file"], e["line"])
                    if key in seen:
                        continue
                    c, how = confirm(job, e)
                    if how is None and e["kind"] in ("nontermination", "stack-overflow"):  # budgets of the executor, not of the real code
                        bad = False
                        if nm not in incomplete:
                            incomplete.append(nm)
                        continue
                    if how is None:
                        problems.append("%s: %s (%s, %s:%s) is not reproduced by the real code: %s; input %s" % (nm, e["kind"], e["msg"], e["file"], e["line"], c[:200], e["input"][:200]))
                        continue
                    seen.add(key)
                    n = len(violations) + 1
                    path = os.path.join(rep, "%s-%d.json" % (pid, n))
                    json.dump(dict(property=pid, harness=job["h"], params=job["p"], sanitizer=how, input=e["input"], kind=e["kind"], msg=e["msg"], file=e["file"], line=e["line"], stack=e["stack"], objects=e.get("objects"), native=c, replay="python3 check.py --replay " + os.path.relpath(path, ROOT)), open(path, "w"), indent=1)
                    violations.append((path, nm, e, c))
                    stop_soon()
                if not r["complete"] and not bad:
                    incomplete.append(nm)
                elif not bad and nm not in incomplete and not r["unsupported"]:
                    miss = [m for m in job.get("need", []) if m not in dict(r["marks"])]
                    if miss:
                        problems.append("%s: nothing reached %s" % (nm, miss))
                for s, o in zip(r["samples"], nat):
                    want = "OK" + "".join(" %d" % x for x in s[1])
                    if o == want:
                        validated += 1
                    elif o.startswith("FAIL assert") or o.startswith("FAIL sanitizer"):
                        e = dict(kind="assert" if o.startswith("FAIL assert") else "sanitizer", msg=o.split(" ", 2)[2] if o.startswith("FAIL assert") else o[5:], file="", line=0, input=s[0], stack="")
                        if accept(e):
                            key = (e["kind"], e["msg"][:40])
                            if key not in seen:
                                seen.add(key)
                                path = os.path.join(rep, "%s-%d.json" % (pid, len(violations) + 1))
                                json.dump(dict(property=pid, harness=job["h"], params=job["p"], sanitizer="asan", input=s[0], kind=e["kind"], msg=e["msg"], native=o, note="found when an explored path was replayed natively", replay="python3 check.py --replay " + os.path.relpath(path, ROOT)), open(path, "w"), indent=1)
                                violations.append((path, nm, e, o))
                                stop_soon()
                    else:
                        mismatches += 1
                        problems.append("%s: executor and real code disagree on input %s: %s / %s" % (nm, s[0][:120], want[:120], o[:120]))
                if len(samples) < 6 and r["samples"]:
                    samples.append(dict(job=nm, input=r["samples"][-1][0][:200], observed=r["samples"][-1][1][:24]))
        if not violations and 2 * len(joblog) < len(jobs):
            problems.append("most jobs gave no result")
        if not incomplete and not violations:
            for m in P.get("need", []):
                if m not in marks:
                    problems.append("vacuous: no path reached '%s'" % m)
        cross = cross_check(dumpdir, tmp) if dumpdir else None
        if cross and cross["disagreements"]:
            problems.append("solvers disagree: %s" % cross)
    except BuildError as e:
        problems.append("build: %s" % e)
        cross = None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    cov = dict(states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples,
               functions_encoded=sorted(funcs), jobs=len(joblog), queries=tot["queries"], solver_queries=tot["z3_queries"], answered_by_witness_or_cache=tot["witness_hits"] + tot["cache_hits"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"],
               solver_s=round(tot["solver_s"], 3), forks=tot["forks"], assertions_checked=tot["asserts"], assertions_by_simplification=tot["asserts_by_simplification"], paths_reaching={k: marks[k] for k in sorted(marks)}, bounds=P["bounds"](tier) if callable(P["bounds"]) else P["bounds"], exhaustive_within_bounds=not incomplete and not problems,
               incomplete_jobs=incomplete[:40], errors_of_other_properties=foreign, job_log=sorted(joblog, key=lambda j: -j["wall_s"])[:60])
    if cross:
        cov["cross_check_with_other_solvers"] = cross
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=props.ASSUMPTIONS + P.get("assumptions", []), wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for path, nm, e, c in violations:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
        print("  %s: %s: %s at %s:%s\n  input %s\n  real code: %s" % (nm, e["kind"], e["msg"], e["file"], e["line"], e["input"][:300], c[:300]))
    for p in problems[:20]:
        print("PROBLEM " + p)
    for n in notes[:3]:
        print("note: " + n)
    if incomplete:
        print("note: not explored completely: " + ", ".join(incomplete[:20]))
    print("%s %s: %d jobs, %d paths, %d steps, %d solver queries (%.1f s), %d replayed natively, %d violations, %.1f s" % (pid, tier, len(joblog), tot["paths"], tot["steps"], tot["z3_queries"], tot["solver_s"], validated, len(violations), wall))
    if os.environ.get("VERIF_RECORD"):
        c = {}
        try:
            c = json.load(open(os.path.join(ROOT, "costs.json")))
        except (OSError, ValueError):
            pass
        for j in joblog:
            c[j["job"]] = round(j["wall_s"], 1)
        json.dump({k: v for k, v in sorted(c.items()) if v >= 1}, open(os.path.join(ROOT, "costs.json"), "w"), indent=0)
    return 1 if violations else 2 if problems else 0


def cross_check(dd, tmp):
    """a sample of the queries again with independent solvers"""
    files = sorted(glob.glob(os.path.join(dd, "*", "*.smt2")))[:120]
    res = dict(queries=len(files), agree=0, unknown=0, disagreements=[])
    def one(f):
        want = "unsat" if f.endswith("_unsat.smt2") else "sat"
        out = {}
        for s in ("cvc5", "z3-new"):
            if shutil.which(s):
                try:
                    o = subprocess.run([s, f] if s != "cvc5" else [s, "--lang=smt2", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40).stdout.split()
                    out[s] = o[0] if o else "?"
                except subprocess.TimeoutExpired:
                    out[s] = "timeout"
        return f, want, out
    with ThreadPoolExecutor(WORKERS) as ex:
        for f, want, out in ex.map(one, files):
            a = {v for v in out.values() if v in ("sat", "unsat")}
            if want: a.add(want)
            if len(a) > 1: res["disagreements"].append([os.path.basename(f), want, out])
            elif all(v in ("sat", "unsat") for v in out.values()): res["agree"] += 1
            else: res["unknown"] += 1
    return res


def replay(f):
    d = json.load(open(f))
    tmp = tempfile.mkdtemp(prefix="sxchk")
    try:
        B = Builder(tmp)
        print(native_run(B.native(d["harness"], d.get("sanitizer", "asan")), d["params"], [d["input"]])[0])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--job":
        ensure_engine()
        tmp = tempfile.mkdtemp(prefix="sxchk")
        try:
            B = Builder(tmp)
            job = dict(h=a[1], p=dict(x.split("=") for x in a[2:]))
            r, rc, err, w = symx(B.bitcode(a[1]), job, tmp, 1, "quick", 20)
            nat = native_run(B.native(a[1]), job["p"], [s[0] for s in r["samples"]])
            ok = sum(o == "OK" + "".join(" %d" % x for x in s[1]) for s, o in zip(r["samples"], nat))
            for k in ("functions", "samples", "branches_both_ways", "branches_one_way"):
                r.pop(k, None)
            print(json.dumps(r, indent=1)[:6000], rc, err, "%.1fs" % w, "native agreement %d/%d" % (ok, len(nat)))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
