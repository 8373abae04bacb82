#!/usr/bin/env python3
"""Driver: decides one property from /repo's current sources.

  check.py --setup            build the VC generator, the prover and the native run-time
  check.py Gxx                decide property Gxx (tier from VERIF_TIER, seed from VERIF_SEED)

Per property: every contract translation unit contracts/Gxx*.cpp is compiled against /repo's headers to LLVM IR
(clang, no optimisation), irvc turns each harness into verification conditions, rfprove discharges them; the same
harness is also compiled natively and used to replay counterexamples on the real code.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time, threading
import importlib.util

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
T0 = time.time()
DEADLINE = T0 + (3000 if THOROUGH else 780)
INC = ["-isystem", "/usr/include/eigen3", "-I" + REPO + "/include", "-isystem", REPO + "/3rd-party/Tick", "-I" + V + "/contracts", "-I" + B + "/gen"]
IRF = ["clang++-18", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-DNDEBUG", "-ffp-contract=off", "-w", "-ferror-limit=5"]
NATF = ["clang++-18", "-std=c++17", "-O1", "-DNDEBUG", "-ffp-contract=off", "-w", "-ferror-limit=5"]


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"


def left():
    return max(1.0, DEADLINE - time.time())


# ------------------------------------------------------------------ tools
def setup():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "tools.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = sorted(glob.glob(V + "/vcgen/*") + glob.glob(V + "/runtime/*"))
        h = hashlib.sha256()
        for s in srcs:
            h.update(open(s, "rb").read())
        stamp = os.path.join(B, "tools.stamp")
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and all(os.path.exists(os.path.join(B, x)) for x in ("irvc", "rfprove", "vc_native.o", "vc_native_asan.o")):
            return
        cxx = subprocess.check_output("llvm-config-18 --cxxflags", shell=True, text=True)
        cxx = re.sub(r"-std=\S*|-fno-exceptions", "", cxx).split() + ["-fexceptions"]

        def ld(libs):
            return subprocess.check_output("llvm-config-18 --ldflags --libs " + libs, shell=True, text=True).split()
        jobs = [
            ["clang++-18", "-O2", "-std=c++17", "-w", V + "/vcgen/irvc.cpp", "-o", B + "/irvc"] + cxx + ld("core irreader support bitreader demangle"),
            ["clang++-18", "-O2", "-std=c++17", "-w", V + "/vcgen/rfprove.cpp", "-o", B + "/rfprove"] + cxx + ld("support") + ["-lgmpxx", "-lgmp"],
            ["clang++-18", "-O1", "-std=c++17", "-w", "-c", V + "/runtime/vc_native.cpp", "-o", B + "/vc_native.o"],
            ["clang++-18", "-O1", "-std=c++17", "-w", "-fsanitize=address", "-c", V + "/runtime/vc_native.cpp", "-o", B + "/vc_native_asan.o"],
        ]
        with cf.ThreadPoolExecutor(4) as ex:
            for (rc, o, e), j in zip(ex.map(sh, jobs), jobs):
                if rc:
                    print("cannot build the verification tools:\n" + " ".join(j) + "\n" + e[-3000:])
                    sys.exit(2)
        open(stamp, "w").write(h.hexdigest())


# ------------------------------------------------------------------ one contract translation unit
class TU:
    def __init__(self, gid, path, flags=()):
        self.gid, self.path = gid, path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.dir = os.path.join(B, gid)
        self.bc, self.js, self.nat = (os.path.join(self.dir, self.name + x) for x in (".bc", ".json", ".native"))
        self.src = open(path).read()
        self.asan = "NATIVE: asan" in self.src
        self.internal = "SCOPE: internal" in self.src
        self.flags = list(flags)
        self.harnesses, self.err, self.gen_secs, self.cc_secs = [], "", 0.0, 0.0
        self.natrc = None
        self.lock = threading.Lock()

    def generate(self):
        t = time.time()
        rc, o, e = sh(IRF + INC + self.flags + [self.path, "-o", self.bc], timeout=left())
        self.cc_secs = time.time() - t
        if rc == -999:
            self.err = "timeout"; return
        if rc:
            self.err = "compile"; self.msg = e[:6000]; return
        t = time.time()
        rc, o, e = sh([B + "/irvc", self.bc, "-o", self.js], timeout=left())
        self.gen_secs = time.time() - t
        try:
            self.harnesses = json.load(open(self.js))
        except Exception as x:
            self.err = "generator"; self.msg = (e + str(x))[:4000]; return
        # keep only what the prover needs per harness in separate files
        for h in self.harnesses:
            p = os.path.join(self.dir, h["harness"] + ".vc.json")
            json.dump([h], open(p, "w"))
            h["file"] = p; h.pop("terms", None)
            h["nevents"] = sum(len(q["events"]) for q in h["paths"]); h["npaths"] = len(h["paths"]); h.pop("paths", None)
        os.unlink(self.js)

    def native(self):
        with self.lock:
            if self.natrc is None:
                f = NATF + INC + self.flags + (["-fsanitize=address", "-fno-omit-frame-pointer"] if self.asan else [])
                rc, o, e = sh(f + [self.path, B + ("/vc_native_asan.o" if self.asan else "/vc_native.o"), "-o", self.nat, "-rdynamic", "-ldl"], timeout=max(60, left()))
                self.natrc, self.naterr = rc, e[:4000]
        return self.natrc == 0

    def run_native(self, args, timeout=60):
        """returns (failed, records, text)"""
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_segv=0:detect_stack_use_after_return=1")
        rc, o, e = sh([self.nat] + args, timeout=timeout, env=env)
        if rc == -999:
            return False, [], "timeout"
        try:
            recs = json.loads(o)
        except Exception:
            recs = []
        if rc not in (0, 1, 2) or "AddressSanitizer" in e:
            return True, recs or [{"status": "crash", "rc": rc}], (o + e)[-6000:]
        return rc == 1, recs, o[-6000:]


def native_replay(tu, h, witnesses, nrand):
    """try to fail harness h on the real code; returns (inputs or None, text, tried)"""
    if not tu.native():
        return None, "native build failed: " + tu.naterr, 0
    tried = 0
    if witnesses:
        f = os.path.join(tu.dir, h + ".in")
        with open(f, "w") as fo:
            for w in witnesses:
                for k, v in w.items():
                    fo.write("%s %s\n" % (k, v))
                fo.write("---\n")
        bad, recs, txt = tu.run_native(["replay", h, f]); tried += len(witnesses)
        if bad:
            for i, r in enumerate(recs):
                if r["status"] in ("fail", "crash"):
                    inp = r.get("inputs") or (witnesses[i] if i < len(witnesses) else {})
                    return inp, json.dumps(r), tried
            return witnesses[min(len(recs), len(witnesses) - 1)], txt, tried
    if nrand:
        bad, recs, txt = tu.run_native(["rand", h, str(nrand), str(SEED)], timeout=150); tried += nrand
        if bad:
            for r in recs:
                if r["status"] in ("fail", "crash"):
                    return r.get("inputs") or {"(deterministic)": "rand seed %d" % SEED}, json.dumps(r) + "\n" + txt[-3000:], tried
            return {"(deterministic)": "rand seed %d" % SEED}, txt, tried
    return None, "", tried


# ------------------------------------------------------------------ result collection
class Result:
    def __init__(self, gid):
        self.gid = gid
        self.obl = self.dis = 0
        self.by = {}
        self.viol = []          # (harness, label, detail, replayfile, has_input)
        self.known = []
        self.bounded = []
        self.funcs = set(); self.externs = set()
        self.samples = []
        self.secs = self.smt = 0.0; self.smt_calls = 0; self.paths = 0; self.infeasible = 0; self.nharness = 0; self.native_runs = 0; self.nf = 0
        self.notes = []; self.slow = []
        self.undischarged = []
        self.lock = threading.Lock()


def known_findings(gid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) obligation=(\S+) (.*)", ln.strip())
            if m and m.group(1) == gid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def write_replay(gid, h, data):
    d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (gid, re.sub(r"[^A-Za-z0-9_.-]", "_", h)[:120]))
    json.dump(data, open(p, "w"), indent=1)
    return os.path.relpath(p, V)


def violation(R, h, label, detail, inputs, text, extra=None):
    for (kh, kl, what) in known_findings(R.gid):
        if re.fullmatch(kh, h) and re.fullmatch(kl, label):
            R.known.append(what); return
    data = {"property": R.gid, "harness": h, "obligation": label, "verifier": detail, "inputs": inputs, "native": text,
            "how_to_replay": "cd /verif && python3 check.py %s --replay <this file>" % R.gid}
    data.update(extra or {})
    p = write_replay(R.gid, h, data)
    R.viol.append((h, label, detail, p, inputs is not None))


def handle(R, tu, h):
    """prove one harness"""
    name = h["harness"]
    with R.lock:
        R.nharness += 1; R.funcs |= set(f for f in h["functions"] if "wave::" in f); R.externs |= set(h["externs"])
    if h["error"]:
        # outside the generator's reach: bounded stand-in on the real code
        inp, txt, n = native_replay(tu, name, [], 2000 if THOROUGH else 300)
        with R.lock:
            R.native_runs += n; R.bounded.append({"harness": name, "reason": h["error"][:300], "native_inputs": n})
            if inp is not None:
                violation(R, name, "bounded-stand-in", h["error"], inp, txt)
        return
    out = h["file"].replace(".vc.json", ".out.json")
    budget = ["--budget", "60", "--smt", "30", "--samples", "200"] if THOROUGH else ["--budget", "25", "--smt", "10", "--samples", "40"]
    t = time.time()
    rc, o, e = sh([B + "/rfprove", h["file"], "-o", out, "--seed", str(SEED)] + budget, timeout=min(left(), 2400 if THOROUGH else 600))
    secs = time.time() - t
    try:
        res = json.load(open(out))[0]
    except Exception:
        res = None
    if rc != 0 or res is None:
        inp, txt, n = native_replay(tu, name, [], 300)
        with R.lock:
            R.native_runs += n
            R.obl += 1
            R.undischarged.append(name + ": prover " + ("timeout" if rc == -999 else "error rc=%d %s" % (rc, e[-300:])))
            violation(R, name, "prover-gave-no-answer", e[-1000:], inp, txt)
        return
    failed, wit, live, sample = [], [], 0, None
    contra = []
    with R.lock:
        R.secs += res["seconds"]; R.smt += res["smt_seconds"]; R.smt_calls += res["smt_calls"]; R.nf += res["normal_forms"]
        R.slow.append((secs, name))
        for p in res["paths"]:
            R.paths += 1
            if p["contradiction"]:
                contra.append(p["contradiction"])
                if "sample" in p: wit.append(p["sample"])
            if p["infeasible"]:
                R.infeasible += 1; R.obl += 1; R.dis += 1; R.by["infeasible-path"] = R.by.get("infeasible-path", 0) + 1; continue
            live += 1
            if p["end"] not in ("return", "stop"):
                R.obl += 1; failed.append(("safety/" + p["end"], p["msg"]))
                if "sample" in p: wit.append(p["sample"])
            elif p["end"] == "return":
                R.obl += 1; R.dis += 1; R.by["memory-safety-of-path"] = R.by.get("memory-safety-of-path", 0) + 1
            for k, l, m in p["fails"]:
                R.obl += 1; failed.append((l or k, m))
                if "sample" in p: wit.append(p["sample"])
            for g in p["goals"]:
                R.obl += 1
                if g[2] in ("proved", "infeasible"):
                    R.dis += 1; R.by[g[3] or g[2]] = R.by.get(g[3] or g[2], 0) + 1
                else:
                    failed.append((g[1], g[5] if len(g) > 5 else g[3]))
                    if len(g) > 6:
                        wit.insert(0, g[6])
                    elif "sample" in p: wit.append(p["sample"])
            if sample is None and "sample" in p: sample = p["sample"]
        if len(R.samples) < 6:
            R.samples.append({"harness": name, "paths": len(res["paths"]), "obligations": [g[1] for p in res["paths"] for g in p["goals"]][:4]})
        ngoals = sum(len(p["goals"]) for p in res["paths"] if not p["infeasible"])
    if contra:
        failed.append(("prover-self-check", "numeric sample contradicts the proof: " + "; ".join(contra[:3])))
    if not failed and (live == 0 or ngoals == 0):
        failed.append(("vacuity", "no feasible path reaches an obligation (preconditions or ghost set-up no longer satisfiable)"))
    uniq = []
    for w in wit:
        if w not in uniq: uniq.append(w)
    if failed:
        inp, txt, n = native_replay(tu, name, uniq[:24], 400)
        with R.lock:
            R.native_runs += n
            R.undischarged += ["%s %s" % (name, l) for l, _ in failed[:10]]
            violation(R, name, failed[0][0], "; ".join("%s: %s" % f for f in failed[:6])[:6000], inp, txt,
                      {"failed_obligations": [list(f) for f in failed[:60]], "verifier_witnesses": uniq[:4]})
    elif "NO_NATIVE" not in tu.src:
        # cross-check the generator's reading of the code against the compiled code
        inp, txt, n = native_replay(tu, name, [sample] if sample and not THOROUGH else [], 40 if THOROUGH else 2)
        with R.lock:
            R.native_runs += n
            if inp is not None:
                violation(R, name, "native-cross-check", "all obligations discharged over the reals, but the compiled code fails", inp, txt)


def evidence(R, level, extra, tus):
    ev = {"property": R.gid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level,
          "coverage": {"obligations": R.obl, "discharged": R.dis, "checker_cmd": "python3 check.py " + R.gid,
                       "trusted_base": TRUSTED, "discharged_by": R.by, "contract_harnesses": R.nharness, "paths": R.paths,
                       "infeasible_paths": R.infeasible, "solver_seconds": round(R.secs, 2), "smt_calls": R.smt_calls, "smt_seconds": round(R.smt, 2), "normal_forms": R.nf,
                       "functions_verified_count": len(R.funcs), "functions_verified": sorted(f[:200] for f in R.funcs if " wave::" in " " + f)[:400],
                       "external_functions_by_axiom": sorted(R.externs), "native_executions": R.native_runs,
                       "bounded_stand_ins": R.bounded, "undischarged": R.undischarged[:50], "known_findings": R.known,
                       "translation_units": [{"file": os.path.relpath(t.path, V), "harnesses": len(t.harnesses), "compile_s": round(t.cc_secs, 2), "vcgen_s": round(t.gen_secs, 2)} for t in tus],
                       "slowest": [[n, round(s, 1)] for s, n in sorted(R.slow, reverse=True)[:5]], "samples": R.samples, **extra},
          "assumptions": ASSUMPTIONS + R.notes, "wall_s": round(time.time() - T0, 2), "violations": len(R.viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", R.gid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)


TRUSTED = ["clang 18 front end (C++ to unoptimised LLVM IR)", "vcgen/irvc.cpp (VC generation from the IR)", "vcgen/rfprove.cpp and vcgen/rf.hpp (exact rational-function normal forms, sign and interval reasoning)",
           "z3 4.8.12 and cvc5 1.1.2 for side conditions", "contracts/vc.hpp specification mathematics"]
ASSUMPTIONS = ["double arithmetic read as arithmetic of real numbers (rounding, overflow and NaN propagation are not modelled)",
               "decimal literals that the front end rounded are read as the nearest small fraction (1.0/6 as 1/6, M_PI as pi)",
               "axioms for sqrt, sin, cos, acos, atan2 on their domains", "operator new never fails; asserts compiled out (NDEBUG)"]


def main():
    if "--setup" in sys.argv:
        setup(); return 0
    gid = sys.argv[1]
    setup()
    d = os.path.join(B, gid); os.makedirs(d, exist_ok=True)
    for f in glob.glob(d + "/*"):
        if os.path.isfile(f): os.unlink(f)
    R = Result(gid)
    if "--replay" in sys.argv:
        return replay(gid, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
    extra = {}
    genp = os.path.join(V, "contracts", gid + "_gen.py")
    tus = []
    mod = None
    if os.path.exists(genp):
        spec = importlib.util.spec_from_file_location(gid + "_gen", genp); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        if hasattr(mod, "generate"):
            os.makedirs(B + "/gen", exist_ok=True)
            tus += [TU(gid, p) for p in mod.generate(B + "/gen", THOROUGH)]
    for p in sorted(glob.glob(V + "/contracts/" + gid + "*.cpp")):
        s = open(p).read()
        if "TIER: thorough" in s and not THOROUGH: continue
        tus.append(TU(gid, p))
    only = os.environ.get("VERIF_ONLY")
    if only: tus = [t for t in tus if re.search(only, t.name)]
    ex = cf.ThreadPoolExecutor(8)
    futs = []

    def do_tu(tu):
        tu.generate()
        if tu.err:
            inp = None
            if tu.err == "compile" and tu.internal:
                with R.lock: R.bounded.append({"harness": tu.name, "reason": "internal-interface contract no longer compiles: " + tu.msg[:500]})
                return
            with R.lock:
                R.obl += 1; R.undischarged.append(tu.name + ": " + tu.err)
                violation(R, tu.name, {"compile": "contract-typechecks", "timeout": "generation-timeout"}.get(tu.err, tu.err), getattr(tu, "msg", "timeout"), None, "")
            return
        if not tu.harnesses:
            with R.lock: violation(R, tu.name, "vacuity", "no harness in translation unit", None, "")
        if "NO_NATIVE" not in tu.src: tu.native()  # here, so that translation units build in parallel
        with R.lock:
            for h in tu.harnesses:
                futs.append(ex.submit(handle, R, tu, h))
    firsts = [ex.submit(do_tu, t) for t in tus]
    modf = ex.submit(mod.check, R, sys.modules[__name__], THOROUGH) if mod and hasattr(mod, "check") else None
    for f in firsts: f.result()
    i = 0
    while i < len(futs):
        futs[i].result(); i += 1
    if modf: extra = modf.result() or {}
    level = "proof"
    if R.obl == 0:
        violation(R, gid, "vacuity", "no obligations were generated", None, "")
    evidence(R, level, extra, tus)
    for t in tus:
        for f in (t.bc, t.nat):
            if os.path.exists(f) and not os.environ.get("VERIF_KEEP"): os.unlink(f)
    if not os.environ.get("VERIF_KEEP"):
        for f in glob.glob(d + "/*"): os.unlink(f)
    for k in sorted(set(R.known)):
        print("KNOWN-FINDING: property=%s %s" % (gid, k))
    print("%s: %d/%d obligations discharged, %d contract harnesses, %d paths, %d bounded stand-ins, %d native runs, %.1fs" % (gid, R.dis, R.obl, R.nharness, R.paths, len(R.bounded), R.native_runs, time.time() - T0))
    for b in R.bounded: print("  bounded: %s (%s)" % (b["harness"], b["reason"][:160]))
    R.viol.sort(key=lambda v: not v[4])
    for h, l, det, p, has in R.viol[:25]:
        print("  failed obligation: %s %s: %s" % (h, l, det[:300].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s%s" % (gid, p, "" if has else " no-failing-input-found"))
    return 1 if R.viol else 0


def replay(gid, data):
    h = data["harness"]
    for p in sorted(glob.glob(V + "/contracts/" + gid + "*.cpp") + glob.glob(B + "/gen/" + gid + "*.cpp")):
        if h in open(p).read() or True:
            tu = TU(gid, p)
            if tu.native():
                rc, o, e = sh([tu.nat, "rand", h, "0", "1"])
                if rc == 2: continue
                inp, txt, n = native_replay(tu, h, [data["inputs"]] if data.get("inputs") and "(deterministic)" not in data["inputs"] else [], 400)
                print(txt or "no failure"); return 1 if inp is not None else 0
    print("harness not found"); return 2


if __name__ == "__main__":
    sys.exit(main())
