#!/usr/bin/env python3
"""Driver: regenerate the encoding from /repo's current sources, run the symbolic executor, replay, write evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
QSE = os.path.join(BUILD, "qse")

DEFAULTS = dict(ENABLE_ALU=1, ENABLE_ENV_VARS=1, ENABLE_OCL_MEM_GUARDS=1, ENABLE_OOO_OCL=1, ENABLE_PTHREAD=1, ENABLE_QBDT=1,
                SEED_DEVRAND=1, ENABLE_QUNIT_CPU_PARALLEL=1, FPPOW=5, PSTRIDEPOW=12, QBCAPPOW=7, UINTPOW=6, CPP_STD=14)
X2 = "(!(defined(__GNUC__) || defined(__MINGW32__)) || ((FPPOW == 5) && __SSE__) || ((FPPOW == 6) && __SSE2__))"
SSE3 = "(!(defined(__GNUC__) || defined(__MINGW32__)) || __SSE3__)"

# sources of the default CPU library configuration
CORE = """src/common/functions.cpp src/common/big_integer.cpp src/common/parallel_for.cpp src/common/dispatchqueue.cpp
src/qinterface/arithmetic.cpp src/qinterface/gates.cpp src/qinterface/logic.cpp src/qinterface/qinterface.cpp src/qinterface/rotational.cpp
src/qengine/qengine.cpp src/qengine/arithmetic.cpp src/qengine/state.cpp src/qengine/utility.cpp src/qalu.cpp""".split()
ALL = CORE + """src/qengineshard.cpp src/qunit.cpp src/qunitclifford.cpp src/qpager.cpp src/qstabilizer.cpp src/qstabilizerhybrid.cpp
src/qcircuit.cpp src/arithmetic_qcircuit.cpp src/qtensornetwork.cpp src/qinterface_noisy.cpp
src/qbdt/node.cpp src/qbdt/node_interface.cpp src/qbdt/tree.cpp src/qbdthybrid.cpp""".split()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def config_h(over):
    d = dict(DEFAULTS)
    d.update(over)
    out = []
    for line in open(os.path.join(REPO, "include/common/config.h.in")):
        m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", line)
        if m:
            k, rest = m.group(1), m.group(2)
            v = d.get(k)
            if v in (None, 0, False):
                out.append("/* #undef %s */\n" % k)
            else:
                rest = re.sub(r"@(\w+)@", lambda q: str(d.get(q.group(1), "")), rest)
                out.append("#define %s%s\n" % (k, rest))
            continue
        line = line.replace("@COMPLEX_X2_MACRO@", "0" if d.get("NO_X2") else X2).replace("@SSE3_MACRO@", SSE3)
        out.append(line)
    return "".join(out)


def tree_hash():
    h = hashlib.sha1()
    for root, ds, fs in os.walk(os.path.join(REPO, "include")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def harness_hash(ext=(".h", ".hpp")):
    h = hashlib.sha1()
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(ext):
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def setup():
    r = run(["bash", os.path.join(VERIF, "engine/build.sh"), QSE])
    if r.returncode:
        log(r.stdout)
        raise SystemExit("engine build failed")


def compile_all(srcs, over, extra=()):
    """bitcode of /repo's current sources (content-addressed cache)"""
    cfg = config_h(over)
    th = tree_hash()
    hh = harness_hash()
    cdir = os.path.join(BUILD, "cfg", hashlib.sha1(cfg.encode()).hexdigest()[:12])
    os.makedirs(os.path.join(cdir, "common"), exist_ok=True)
    for p in (os.path.join(cdir, "config.h"), os.path.join(cdir, "common/config.h")):
        if not os.path.exists(p) or open(p).read() != cfg:
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(cfg)
            os.replace(tmp, p)
    bdir = os.path.join(BUILD, "bc")
    os.makedirs(bdir, exist_ok=True)
    flags = ["-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-DBOOST_AVAILABLE=1",
             "-DENABLE_RDRAND=1", "-DNDEBUG", "-fPIC", "-I" + cdir, "-I" + os.path.join(cdir, "common"), "-I" + os.path.join(REPO, "include"),
             "-I" + os.path.join(REPO, "include/common"), "-I" + os.path.join(VERIF, "harness"), "-mrdrnd", "-emit-llvm", "-c"] + list(extra)
    jobs = []
    for s in srcs:
        p = s if os.path.isabs(s) else os.path.join(REPO, s)
        h = hashlib.sha1()
        h.update(th.encode())
        h.update(cfg.encode())
        h.update(" ".join(flags).encode())
        h.update(p.encode())
        h.update(open(p, "rb").read())
        if p.startswith(VERIF + os.sep):
            h.update(hh.encode())
            if b'.cpp"' in open(p, "rb").read():
                h.update(harness_hash((".cpp",)).encode())
        o = os.path.join(bdir, h.hexdigest()[:24] + ".bc")
        jobs.append((p, o))

    def one(j):
        p, o = j
        if os.path.exists(o):
            return None
        tmp = o + ".%d.tmp" % os.getpid()
        r = run(["clang++"] + flags + [p, "-o", tmp])
        if r.returncode:
            return p + "\n" + r.stdout[-4000:]
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        log("\n".join(errs))
        raise SystemExit("compile failed")
    # keep the cache small
    fs = sorted((os.path.join(bdir, f) for f in os.listdir(bdir)), key=os.path.getmtime)
    live = {o for _, o in jobs}
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < 600e6:
            break
        if f not in live:
            tot -= os.path.getsize(f)
            os.unlink(f)
    return [o for _, o in jobs]


OVERRIDES = ["_ZSt18generate_canonicalIf=vp_rand_f32_impl", "_ZSt18generate_canonicalId=vp_rand_f64_impl"]


class Unit:
    """one harness file in one build configuration"""
    def __init__(self, harness, srcs=None, over=None, overrides=(), cases=None, budget=120, max_insns=None, args=(), replay="native", extra=(), optional=False):
        self.harness, self.srcs, self.over = harness, srcs or ALL, over or {}
        self.overrides, self.cases, self.budget, self.max_insns, self.args, self.replay, self.extra = overrides, cases, budget, max_insns, list(args), replay, list(extra)
        self.optional = optional  # names private members: dropped (with a note in the evidence) if it no longer compiles


def execute(unit, work, jobs=8):
    """link + symbolic execution; returns list of log records and the path of the linked module"""
    t0 = time.time()
    bcs = compile_all(list(unit.srcs) + [os.path.join(VERIF, "harness", unit.harness)], unit.over, unit.extra)
    t1 = time.time()
    base = os.path.join(work, os.path.basename(unit.harness).replace(".cpp", "") + "_" + hashlib.sha1(repr(sorted(unit.over.items())).encode()).hexdigest()[:6])
    mod = base + ".bc"
    cmd = [QSE, "link"] + bcs + ["-o", mod, "--asan"]
    for o in OVERRIDES + list(unit.overrides):
        cmd += ["--override", o]
    r = run(cmd)
    if r.returncode or not os.path.exists(mod):
        log(r.stdout)
        raise SystemExit("link failed")
    if os.environ.get("QSE_TIME"):
        log(r.stdout)
    t2 = time.time()
    lf = base + ".log"
    out = base + ".in"
    os.makedirs(out, exist_ok=True)
    cmd = [QSE, "run", mod, "--log", lf, "--outdir", out, "--jobs", str(jobs), "--budget", str(unit.budget)] + unit.args
    if unit.max_insns:
        cmd += ["--max-insns", str(unit.max_insns)]
    for c in unit.cases or []:
        cmd += ["--case", c]
    r = run(cmd)
    if os.environ.get("VP_V"):
        log(r.stdout)
    recs = []
    if os.path.exists(lf):
        for line in open(lf, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                log("bad log line", line[:200])
    log("[vp] %s: compile %.1fs link %.1fs run %.1fs rc=%d" % (unit.harness, t1 - t0, t2 - t1, time.time() - t2, r.returncode))
    if r.returncode or not any(x["t"] == "stats" for x in recs):
        log(r.stdout[-4000:])
        raise SystemExit("engine failed (rc=%s)" % r.returncode)
    return recs, mod


_native = {}


def native(mod, asan):
    key = (mod, asan)
    if key in _native:
        return _native[key]
    exe = mod + (".asan.exe" if asan else ".exe")
    src = mod + ".asan.bc" if asan else mod
    if asan:
        shutil.copy(mod + ".asan", src)
    cmd = ["clang++", "-O1", "-w", "-rdynamic", "-x", "ir", src, "-x", "c++", os.path.join(VERIF, "lib/vp_native.cpp"), "-o", exe, "-lpthread", "-ldl"]
    if asan:
        cmd += ["-fsanitize=address"]
    r = run(cmd)
    if r.returncode:
        log(r.stdout[-3000:])
        exe = None
    _native[key] = exe
    return exe


def replay(mod, unit, rec, timeout=20):
    """run the counterexample on the compiled code; returns (reproduced, text)"""
    if unit.replay == "qse":
        r = run([QSE, "run", mod, "--case", rec["case"], "--replay", rec["inputs"], "--log", rec["inputs"] + ".rlog", "--outdir", os.path.dirname(rec["inputs"]), "--budget", "60"] + unit.args)
        rr = [json.loads(l) for l in open(rec["inputs"] + ".rlog", errors="replace")]
        v = [x for x in rr if x["t"] == "violation"]
        return bool(v), json.dumps(v[:2])
    asan = rec["kind"] == "memory"
    exe = native(mod, asan)
    if not exe:
        return False, "replay build failed"
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0")
    try:
        r = run([exe, rec["case"], rec["inputs"], str(timeout)], env=env, timeout=timeout + 30)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, txt = -14, "timeout"
    k = rec["kind"]
    txt = txt[-1500:]
    if k == "assert":
        return rc == 1 and "REPLAY-FAIL assert" in txt, txt
    if k == "memory":
        return rc == 99 or rc in (-11, -7, 139) or "AddressSanitizer" in txt, txt
    if k == "hang":
        return rc in (-14, 142) or rc in (-11, 139), txt
    if k == "exception":
        return rc == 1 and "REPLAY-FAIL exception" in txt, txt
    return rc not in (0, 3, 4), txt


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def check(pid, units, bounds, assumptions=(), level_samples=6, expect_cover=True):
    """Run the units and conclude. Never raises: exit status is 0 or 1."""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup()
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    viol, known, unconfirmed, notes = [], [], [], []
    tot = {}
    fns, cases, covers, ends = set(), {}, {}, set()
    unk, uns, dead, dropped = [], [], [], []
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    samples = []
    try:
        for u in units:
            try:
                recs, mod = execute(u, work)
            except SystemExit as e:
                if not u.optional or "compile" not in str(e):
                    raise
                log("[vp] %s does not compile against this tree: dropped" % u.harness)
                dropped.append(u.harness)
                continue
            hn = os.path.basename(u.harness)
            for r in recs:
                t = r["t"]
                if t == "stats":
                    for k, v in r.items():
                        if isinstance(v, (int, float)):
                            tot[k] = tot.get(k, 0) + v
                elif t == "fn":
                    fns.add(r["name"])
                elif t == "case":
                    cases[hn + ":" + r["case"]] = {"paths": r["paths"], "secs": round(r["secs"], 2)}
                elif t == "cover":
                    covers.setdefault(hn + ":" + r["case"], []).append(r["label"])
                elif t == "end":
                    ends.add(hn + ":" + r["case"])
                elif t == "unknown":
                    unk.append(r)
                elif t == "unsupported":
                    uns.append(r)
                elif t in ("deadline", "crash"):
                    dead.append(r)
            seen = {}
            for r in [x for x in recs if x["t"] == "violation"]:
                key = (r["case"], r["kind"], r["msg"])
                if seen.get(key) is True:
                    continue
                if sum(1 for k in seen if k[0] == r["case"]) > 12 and key not in seen:
                    continue
                ok, txt = replay(mod, u, r)
                seen[key] = ok or seen.get(key, False)
                if not ok:
                    unconfirmed.append({"case": r["case"], "kind": r["kind"], "msg": r["msg"], "stack": r["stack"][:300], "replay": txt[-200:]})
                    if os.environ.get("VP_KEEP"):
                        notes.append(r["inputs"])
                    continue
                m = None
                for k in kf:
                    if re.search(k["match"], "%s|%s|%s|%s" % (hn, r["case"], r["kind"], r["msg"])):
                        m = k
                        break
                rd = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(rd, exist_ok=True)
                dst = os.path.join(rd, "%s.%s.%d.txt" % (pid, r["case"], len(viol) + len(known)))
                with open(dst, "w") as f:
                    f.write("# property %s  harness %s  case %s  config %s\n# %s: %s\n# at: %s\n" % (pid, hn, r["case"], u.over, r["kind"], r["msg"], r["stack"]))
                    f.write("# reproduced natively:\n" + "".join("#   %s\n" % l for l in txt.splitlines()[-12:]))
                    f.write(open(r["inputs"]).read())
                if m:
                    if m not in known:
                        known.append(m)
                else:
                    viol.append((r, dst))
            # when a violation is raised for a key repeatedly, unconfirmed duplicates are dropped
            unconfirmed[:] = [x for x in unconfirmed if not any((y[0]["case"], y[0]["msg"]) == (x["case"], x["msg"]) for y in viol)]
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    for c in sorted(ends):
        samples.append("%s: %s" % (c, cases.get(c, {})))
    vac = [c for c in cases if c not in ends]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of LLVM bitcode compiled from /repo's current sources; every path within the bounds is explored, feasibility and assertions decided by Z3.",
            "bounds": bounds,
            "cases": cases,
            "paths": tot.get("paths", 0), "symbolic_branches": tot.get("branches", 0), "instructions": tot.get("insns", 0),
            "solver_queries": tot.get("queries", 0), "queries_unsat": tot.get("unsat", 0), "queries_sat": tot.get("sat", 0), "queries_unknown": tot.get("unknown", 0),
            "solver_seconds": round(tot.get("solver_s", 0), 2),
            "assertions": tot.get("asserts", 0), "assertions_discharged_by_solver": tot.get("asserts_unsat", 0),
            "assertions_ground_on_path": tot.get("asserts_ground", 0), "assertions_undecided": tot.get("asserts_unknown", 0),
            "obligations": int(tot.get("asserts", 0)), "discharged": int(tot.get("asserts_unsat", 0) + tot.get("asserts_ground", 0)),
            "functions_encoded": sorted(fns), "functions_encoded_count": len(fns),
            "covers": covers, "cases_without_completed_path": vac,
            "incomplete": {"undecided": unk[:20], "unsupported": uns[:20], "deadline_or_crash": dead[:20], "unsupported_paths": tot.get("unsupported", 0)},
            "counterexamples_not_reproduced": unconfirmed[:20],
            "harnesses_dropped": dropped,
            "known_findings_observed": [k["id"] for k in known],
            "samples": samples[:level_samples * 4],
            "exhaustive": not (unk or uns or dead),
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r, dst in viol:
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        print("  case %s: %s: %s" % (r["case"], r["kind"], r["msg"]))
    if unconfirmed:
        log("[vp] %d counterexample(s) did not reproduce natively: %s" % (len(unconfirmed), json.dumps(unconfirmed[:6])[:3000]))
    if unk or uns or dead:
        log("[vp] incomplete: undecided=%d unsupported=%d deadline/crash=%d" % (len(unk), len(uns), len(dead)))
        for x in (unk + uns + dead)[:8]:
            log("     ", json.dumps(x)[:600])
    if vac:
        log("[vp] no completed path in: %s" % vac)
    if notes:
        log("\n".join(notes))
    log("[vp] %s: cases=%d paths=%d asserts=%d (solver %d) queries=%d solver=%.1fs wall=%.1fs violations=%d" % (
        pid, len(cases), tot.get("paths", 0), tot.get("asserts", 0), tot.get("asserts_unsat", 0), tot.get("queries", 0), tot.get("solver_s", 0), time.time() - t0, len(viol)))
    return 1 if viol else 0
