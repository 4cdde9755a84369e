#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree.  See DESIGN.md."""
import multiprocessing
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from concurrent.futures import ThreadPoolExecutor
from collections import Counter
REPO = os.environ.get("ST_REPO", "/repo")
CC = ["clang++", "-std=c++17", "-O1", "-g1", "-w", "-include", "cstdint", "-include", "stdexcept", "-fno-access-control",
      "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-I", os.path.join(REPO, "include")]
TUS = ["t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8", "t9"]


class Concrete:
    """bounded runs of the real header: built from the current tree, each unit in its own process"""

    def __init__(self, prop, work, seed):
        self.prop, self.work, self.seed = prop, work, seed
        self.errors, self.blackbox = [], set()
        self.out = {}

    def cc(self, tu, extra=()):
        o = os.path.join(self.work, tu + ".o")
        p = subprocess.run(CC + ["-DVT_PROP=%d" % int(self.prop[1:])] + list(extra) + ["-c", os.path.join(HERE, "concrete", tu + ".cpp"), "-o", o], capture_output=True, text=True)
        return p.returncode == 0, p.stderr

    def build_one(self, tu):
        ok, err = self.cc(tu)
        if not ok:
            ok, err2 = self.cc(tu, ["-DVT_BLACKBOX"])
            if ok:
                self.blackbox.add(tu)
        if not ok:
            self.errors.append("%s does not compile: %s" % (tu, err[-1500:]))
            return
        self.main_done.wait()
        p = subprocess.run(CC + [os.path.join(self.work, tu + ".o"), os.path.join(self.work, "main.o"), "-o", os.path.join(self.work, tu)], capture_output=True, text=True)
        if p.returncode:
            self.errors.append("%s does not link: %s" % (tu, p.stderr[-1500:]))

    def build(self, workers):
        self.main_done = threading.Event()

        def m():
            ok, err = self.cc("main")
            if not ok:
                self.errors.append("main does not compile: " + err[-1500:])
            self.main_done.set()
        with ThreadPoolExecutor(workers) as ex:
            f = [ex.submit(m)] + [ex.submit(self.build_one, t) for t in TUS]
            for x in f:
                x.result()

    def run(self, secs, seed, procs=None):
        """one process per unit; returns (failing output or None, stats)"""
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        ps = []
        for r in range(procs or 1):
            for t in TUS:
                exe = os.path.join(self.work, t)
                if os.path.exists(exe):
                    o = open(os.path.join(self.work, "%s.%d.out" % (t, r)), "w+")
                    ps.append((t, o, subprocess.Popen([exe, self.prop, "--seconds", str(secs), "--seed", str(seed + 7919 * r)], stdout=o, stderr=subprocess.STDOUT, env=env)))
        fail, stats = None, {"histories": 0, "operations": 0, "checks": 0, "configs": {}, "others": []}
        end = time.time() + secs * 2 + 90
        for t, o, p in ps:
            try:
                p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            o.seek(0)
            s = o.read()
            o.close()
            m = re.search(r"DONE histories=(\d+) operations=(\d+) checks=(\d+)", s)
            if m:
                stats["histories"] += int(m[1]); stats["operations"] += int(m[2]); stats["checks"] += int(m[3])
            for c in re.finditer(r"^CONFIG (\S+) (\d+)", s, re.M):
                stats["configs"][c[1]] = stats["configs"].get(c[1], 0) + int(c[2])
            stats["others"] += re.findall(r"^OTHER (.*)", s, re.M)[:5]
            if p.returncode == 1 and "FAIL property=%s" % self.prop in s and fail is None:
                fail = (t, s)
            elif p.returncode not in (0, 1, 3):
                stats["others"].append("%s ended with status %s" % (t, p.returncode))
        return fail, stats


def _dependent(a):
    from stverif import par, frontend
    try:
        return frontend.capacity_dependent(a[0], a[1], par.UNITS[a[1]])
    except Exception as e:
        return str(e)[:400]


class Deductive:
    def __init__(self, prop, tier, work, budget):
        self.prop, self.tier, self.work, self.budget = prop, tier, work, budget
        self.results, self.problems, self.dependent = {}, [], {}
        self.note = []

    def run(self):
        from stverif import plan, par, frontend
        from stverif import contracts, mutate
        try:
            from stverif import seqlevel
        except ImportError:
            seqlevel = None
        p = plan.PLAN.get(self.prop, {})
        jobs, units = [], []
        for u, fns in p.get(self.tier, []):
            for f in fns:
                lvl = "tree"
                j = (lvl, u, f)
                if j not in jobs:
                    jobs.append(j)
        for u, fns in p.get("seq", []):
            for f in fns:
                jobs.append(("seq", u, f))
        for j in jobs:
            if j[1] not in units:
                units.append(j[1])
        ok = set()
        for u in units:
            try:
                par.UNITS[u] = frontend.load_unit(self.work, u)
                ok.add(u)
            except Exception as e:
                self.problems.append("unit %s: %s" % (u, str(e)[:400]))
        # a unit for every capacity is one instantiation as long as another one has the same bodies
        sym = [u for u in units if u in ok and 0 in u[:2]]
        if sym:
            with multiprocessing.get_context("fork").Pool(min(8, len(sym))) as pool:
                for u, d in zip(sym, pool.map(_dependent, [(self.work, u) for u in sym])):
                    if isinstance(d, str):
                        ok.discard(u)
                        self.problems.append("unit %s: %s" % (u, d))
                    else:
                        self.dependent[u] = d
        self.jobs = jobs
        self.units = units
        self.own = p.get("own", set())
        jobs = [j for j in jobs if j[1] in ok]
        if jobs:
            self.results = par.run_jobs(jobs, deadline=time.time() + self.budget)

    def summary(self):
        st = Counter()
        funcs, cats = {}, Counter()
        fails, unknown, unsup, vac, refuted = [], [], [], [], []
        q, s = 0, 0.0
        for j, r in self.results.items():
            name = "%s @ BM=%s,SM=%s,%s" % (j[2], j[1][0] or "any", j[1][1] or "any", j[1][2]) if len(j[1]) == 3 else "%s @ %s" % (j[2], j[1])
            c = Counter(o[2] for o in r.obls)
            st.update(c)
            # a loop invariant that was inferred but not proved says nothing about the code
            # and an obligation for every capacity that fails may only be out of reach: the units with numbers decide
            nofit = j[0] == "tree" and j[1][1] == 0 or any(o[1] == "loopinv" and o[2] != "ok" for o in r.obls)
            for o in r.obls:
                cats[o[1]] += 1
                if o[2] == "fail" and not nofit:
                    fails.append((name, o[0], o[1], o[3]))
                elif o[2] != "ok":
                    unknown.append((name, o[0], o[1]))
                    if o[2] == "fail" and o[1] in self.own:
                        refuted.append((name, o[0], o[1], o[3]))
            for u in r.unsupported:
                unsup.append((name, u))
            for b in sorted(r.bodies):
                if b.split("(")[0] in self.dependent.get(j[1], ()):
                    unsup.append((name, "%s is instantiated differently for other capacities" % b.split("(")[0]))
            if not any(k.startswith(("return", "throw", "ok")) for k in r.exits) and not r.unsupported:
                vac.append(name)
            funcs[name] = {"paths": r.paths, "obligations": len(r.obls), "discharged": c.get("ok", 0), "exits": r.exits, "queries": r.queries, "solver_s": round(r.solver_s, 2)}
            q += r.queries
            s += r.solver_s
        # a function that reaches itself through contracts needs an argument that the recursion ends
        edges = {}
        for j, r in self.results.items():
            if j[0] == "tree":
                edges.setdefault(j[2], set()).update(r.contract_calls)
        for f in edges:
            seen, todo = set(), [g for g in edges[f] if (f, g) != ("purge_node", "purge_node")]
            while todo:
                g = todo.pop()
                if g not in seen:
                    seen.add(g)
                    todo += edges.get(g, ())
            if f in seen:
                unsup.append((f, "reaches itself through its own contract: not shown to end"))
        missing = ["%s @ %s" % (j[2], j[1]) for j in getattr(self, "jobs", []) if j not in self.results]
        return dict(total=sum(st.values()), ok=st.get("ok", 0), fails=fails, refuted=refuted, unknown=unknown, unsup=unsup, vac=vac, missing=missing,
                    funcs=funcs, cats=dict(cats), queries=q, solver_s=round(s, 1))


def dedup(xs, n=8):
    out, seen = [], set()
    for x in xs:
        k = tuple(str(y) for y in x[:2])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out[:n]


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="stv_%s_" % prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rc = 1
    try:
        rc = decide(prop, tier, seed, work, rdir, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, work, rdir, t0):
    quick = tier == "quick"
    con = Concrete(prop, work, seed)
    bt = threading.Thread(target=con.build, args=(5 if quick else 7,))
    ded = Deductive(prop, tier, work, 480 if quick else 3 * 3600)
    bt.start()
    ded.run()
    bt.join()
    d = ded.summary()
    tded = time.time() - t0
    secs = 10 if quick else 600
    fail, st = con.run(secs, seed)
    complete = d["total"] > 0 and d["ok"] == d["total"] and not (d["unsup"] or d["vac"] or d["missing"] or ded.problems)
    if fail is None and not complete:
        # some obligation is not discharged: search longer for an input that shows it
        f2, s2 = con.run(60 if quick else 900, seed + 104729, procs=2)
        fail = f2
        for k in ("histories", "operations", "checks"):
            st[k] += s2[k]
        st["others"] += s2["others"]
    violation = None
    own_fail = [f for f in d["fails"] if f[2] in ded.own]
    shown = [o for o in st["others"] if re.match(r"crash in |hang in |C\d\d:", o)]
    if not own_fail and shown:
        # an obligation for every capacity that is refuted may only be out of reach: not where the code does go wrong
        own_fail = d["refuted"]
    replay = os.path.join(rdir, "%s.txt" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if fail is not None:
        tu, out = fail
        m = re.search(r"config=(\S+) history=(\d+)", out)
        with open(replay, "w") as f:
            f.write("property %s violated by the real header (unit %s)\n" % (prop, tu))
            f.write("reproduce: cd %s && %s -DVT_PROP=%d concrete/%s.cpp concrete/main.cpp -o /tmp/replay && ASAN_OPTIONS=detect_leaks=0 /tmp/replay %s --only %s --hist %s\n\n" % (
                HERE, " ".join(CC), int(prop[1:]), tu, prop, m[1] if m else "?", m[2] if m else "?"))
            f.write(out[-20000:])
            if d["fails"]:
                f.write("\nobligations that are no longer discharged:\n" + "\n".join("  %s: %s [%s]" % x[:3] for x in dedup(d["fails"], 20)))
        violation = "VIOLATION property=%s replay=%s" % (prop, replay)
        print("\n".join(out[out.find("FAIL property"):].splitlines()[:3]))
    elif own_fail:
        with open(replay, "w") as f:
            f.write("property %s: obligations of the contracts that the solver refutes on the current source\n" % prop)
            for x in dedup(own_fail, 20):
                f.write("  %s: %s [%s]\n      path: %s\n" % (x[0], x[1], x[2], x[3]))
            f.write("no input of the bounded search (%d histories, %d operations) shows it\n" % (st["histories"], st["operations"]))
            for o in shown[:6]:
                f.write("shown for another property: %s\n" % o[:300])
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    level = "proof" if complete or violation else "exploration"
    write_evidence(prop, tier, seed, ded, d, con, st, complete, violation, level, t0, secs)
    print("%s %s: %d of %d obligations discharged in %d functions (%.0f s), solver %.0f s; bounded runs: %d histories, %d operations; %.0f s" % (
        prop, tier, d["ok"], d["total"], len(d["funcs"]), tded, d["solver_s"], st["histories"], st["operations"], time.time() - t0))
    for lab, xs in (("FAILED", dedup(d["fails"])), ("UNDECIDED", dedup(d["unknown"])), ("OUTSIDE-SUBSET", dedup(d["unsup"])), ("VACUOUS", [(v,) for v in d["vac"]]), ("MISSING", [(m,) for m in d["missing"][:8]]), ("FRONTEND", [(m,) for m in ded.problems])):
        for x in xs:
            print("  %s %s" % (lab, ": ".join(str(y) for y in x[:3])[:300]))
    for e in con.errors:
        print("  BOUNDED-RUN " + e[:600])
    for o in st["others"][:6]:
        print("  note (other property): " + o[:200])
    if violation is None and not complete:
        print("  the obligations above are undecided on this source: the bounded runs stand in for them")
    if violation:
        print(violation)
        return 1
    for line in open(os.path.join(HERE, "known-findings.txt")):
        if line.startswith("finding:") and ("property=%s " % prop) in line:
            print("KNOWN-FINDING: " + line[len("finding:"):].strip())
    return 0


def write_evidence(prop, tier, seed, ded, d, con, st, complete, violation, level, t0, secs):
    from stverif import plan
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": d["total"], "discharged": d["ok"],
            "checker_cmd": "python3-vt check.py %s %s  (AST: clang++ -Xclang -ast-dump=json of /repo/include; back end: z3 SimpleSolver)" % (prop, tier),
            "trusted_base": TRUSTED + getattr(plan, "TRUST", {}).get(prop, []),
            "functions_under_contract": d["funcs"], "obligations_by_category": d["cats"],
            "solver": "z3", "solver_queries": d["queries"], "solver_s": d["solver_s"],
            "not_discharged": [list(x[:3]) for x in dedup(d["fails"] + d["unknown"], 20)], "outside_subset": [list(x) for x in dedup(d["unsup"], 10)],
            "bounded_stand_in": {
                "label": "bounded, not proved", "bound": "random histories of 40-200 operations plus growth, %d s per unit, fourteen configurations (four with up to some 400 000 elements)" % secs,
                "what": plan.BOUNDED.get(prop, "") if hasattr(plan, "BOUNDED") else "",
                "histories": st["histories"], "operations": st["operations"], "assertions": st["checks"], "configurations": st["configs"],
                "without_internal_structure": sorted(con.blackbox), "not_built": con.errors[:3]},
            "evaluations": st["operations"], "distinct_nontrivial": st["histories"],
            "rule": "a case is one operation of a random history; a history counts as distinct when its seed and configuration differ and non-trivial because it starts from a random tree shape",
            "samples": ["history seed %d.. on %s" % (seed * 1000003, ", ".join(sorted(st["configs"])[:10]))] + (["violation: " + violation] if violation else []),
            "explanation": "deductive verification of the functions listed" + ("" if complete else "; not all obligations were discharged on this source"),
        },
        "assumptions": ASSUME + (getattr(plan, "ASSUME", {}).get(prop, [])),
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)


TRUSTED = [
    "clang 18 (parsing, template instantiation, typed AST)", "z3 (unsat answers)", "the verification condition generator in /verif/stverif",
    "the principle of induction over the tree height, by which the lemmas of stverif/purge.py hold for every node: base and step are obligations, the principle is not",
]
ASSUME = [
    "a capacity given as a number is that number only, one given as any is every number (see DESIGN.md); other node capacities of the functions that restructure nodes are covered by the bounded runs only",
    "std::allocator and allocator_traits, std::move/forward/addressof, memcpy/memmove behave as specified",
    "moves of elements do not throw; equality of element values is identity of tokens",
    "loops and recursion in the header end (a falling measure is an obligation for each loop under an invariant); the algorithms of the standard library are assumed to end",
    "64-bit size_type, 16-bit node length and index; wrap-around is modelled, container sizes below 2^63",
]

if __name__ == "__main__":
    main()
