#!/opt/veriftools/pyvenv/bin/python
"""run.py ID: decide one property.  See DESIGN.md."""
import contextlib, glob, hashlib, json, os, pickle, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get("VP_REPO", "/repo")
CON = os.path.join(ROOT, "contracts")
SAN = "signed-integer-overflow,integer-divide-by-zero,shift,float-cast-overflow,unreachable,return,bounds"
CXX = ["clang++", "-std=c++20", "-fno-exceptions", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
       f"-I{REPO}", f"-I{CON}", "-include", "cstring", "-include", "cstdint", "-include", "concepts", "-Wno-everything"]
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-fno-access-control", f"-fsanitize={SAN}", "-fsanitize-trap=all", "-emit-llvm", "-c"]
NATFLAGS = ["-O1", "-g", "-DVP_NATIVE", f"-fsanitize=address,{SAN}", "-fno-sanitize-recover=all", "-pthread"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PROVE_BY, JUDGE_BY = (500, 780) if TIER == "quick" else (3 * 3600, 4 * 3600)
NPROC = int(os.environ.get("VP_JOBS", "8"))


def sh(cmd, timeout=None, env=None):
    """run a command; its output goes through a file, so that no other child of ours can hold it open"""
    cmd = [shutil.which(cmd[0]) or cmd[0]] + list(cmd[1:])
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, env=env, close_fds=False)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 124
        out.seek(0)
        r = subprocess.CompletedProcess(cmd, rc)
        r.stdout = out.read().decode(errors="replace")
        return r


def run_jobs(args, nproc):
    """run worker() on each of args in a process of its own, at most nproc at a time; yields results as they come"""
    todo, live = list(args), {}
    tmp = tempfile.mkdtemp(prefix="vpjobs")
    n = 0
    try:
        while todo or live:
            while todo and len(live) < nproc:
                a = todo.pop(0)
                path = os.path.join(tmp, str(n))
                n += 1
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 1
                    try:
                        os.setsid()
                        r = worker(a)
                        with open(path, "wb") as f:
                            pickle.dump(r, f)
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(rc)
                live[pid] = (a, path)
            done = [pid for pid in live if os.waitpid(pid, os.WNOHANG)[0]]
            if not done:
                # a worker that ignores its budget is stopped
                for pid, (a, _) in live.items():
                    if time.time() > a[4] + 60:
                        os.killpg(pid, signal.SIGKILL)
                time.sleep(0.01)
            for a, path in [live.pop(pid) for pid in done]:
                try:
                    with open(path, "rb") as f:
                        r = pickle.load(f)
                    os.unlink(path)
                except Exception as ex:
                    r = empty_result(a, f"worker ended without a result ({type(ex).__name__})")
                yield r
    finally:
        for pid in live:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


def empty_result(a, why):
    return {"tu": a[0], "name": a[1], "wall": 0, "paths": 0, "vcs": 0, "trivial": 0, "insts": 0, "queries": 0, "solver_s": 0, "by": {}, "ends": 0, "invs": [],
            "obls": [], "failures": [], "undecided": {"internal": why}, "covers": {}, "functions": {}, "models": [], "contracts_used": [], "bounded": []}


def bounds(path):
    """`// vp-bounded REGEX text`: contracts whose inputs are bounded in size: stand-ins, not counted as proved"""
    return [(m.group(1), m.group(2).strip()) for m in (re.match(r"//\s*vp-bounded\s+(\S+)\s+(.*)", l) for l in open(path)) if m]


def options(path):
    """`// vp: k=v ...` lines apply to the file, `// vp-opt NAME k=v` to one contract"""
    fo, ho, extra, ass = {}, {}, [], []
    for l in open(path):
        m = re.match(r"//\s*vp:\s*(.*)", l)
        if m:
            for kv in m.group(1).split():
                k, v = kv.split("=", 1)
                fo[k] = int(v) if v.lstrip("-").isdigit() else v
        m = re.match(r"//\s*vp-opt\s+(\S+)\s+(.*)", l)
        if m:
            for kv in m.group(2).split():
                k, v = kv.split("=", 1)
                ho.setdefault(m.group(1), {})[k] = int(v) if v.lstrip("-").isdigit() else v
        m = re.match(r"//\s*vp-src\s+(\S+)", l)
        if m:
            extra.append(m.group(1))
        m = re.match(r"//\s*vp-assume\s+(.*)", l)
        if m:
            ass.append(m.group(1).strip())
    return fo, ho, extra, ass


_MODS = {}


def worker(a):
    tu, name, opts, budget, end = a
    from vp import engine as E

    budget = max(1, min(budget, end - time.time()))

    t = time.time()
    e = E.Engine(_MODS[tu], opts)
    try:
        e.verify(name, budget)
    except Exception as ex:
        e.undecided["internal"] = f"{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}"
    files = {}
    for n in e.called:
        f = e.fns[n]
        if f.file and f.file.startswith(REPO + "/"):
            files.setdefault(os.path.relpath(f.file, REPO), set()).add(f.dem)
    return {
        "tu": tu, "name": name, "wall": time.time() - t, "paths": e.stats.paths, "vcs": e.stats.vcs, "trivial": e.stats.trivial, "insts": e.stats.insts,
        "queries": e.stats.queries, "solver_s": e.stats.time, "by": e.stats.by, "ends": getattr(e, "ends", 0), "invs": e.stats.invs,
        "obls": [[k[0], k[1], v[0], v[1]] for k, v in e.obls.items()], "failures": list(e.failures.values()), "undecided": e.undecided,
        "covers": e.covers, "functions": {k: sorted(v) for k, v in files.items()}, "models": sorted(e.assumed_models), "contracts_used": sorted(e.used_contracts),
        "bounded": e.bounded_note[:5],
    }


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_", dir=os.environ.get("TMPDIR", "/tmp"))
        self.tus = [p for p in sorted(glob.glob(os.path.join(CON, pid + "*.cc"))) if not p.endswith("_hist.cc")]
        self.hist = sorted(glob.glob(os.path.join(CON, pid + "*_hist.cc")))
        self.notes = []
        self.violations = []
        self.native = {}
        self.hist_runs = []
        self.replaydir = os.path.join(ROOT, "replays", pid)
        self.known = []
        kf = os.path.join(ROOT, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"known:\s+property=(\S+)\s+contract=(\S+)\s+obligation=\"(.*?)\"\s+(.*)", l)
                if m and m.group(1) == pid:
                    self.known.append(m.groups())
        self.known_hit = {}

    def irdump(self):
        b = os.path.join(ROOT, "build", "irdump")
        if not os.path.exists(b):
            r = sh([os.path.join(ROOT, "setup.sh")])
            if not os.path.exists(b):
                print(r.stdout)
                raise SystemExit(2)
        return b

    # ------------------------------------------------------------ front end
    def compile(self):
        self.mods = {}
        self.harn = []
        self.broken = {}
        jobs = []
        for tu in self.tus:
            fo, ho, extra, ass = options(tu)
            bc = os.path.join(self.tmp, os.path.basename(tu) + ".bc")
            p = subprocess.Popen(CXX + IRFLAGS + [tu, "-o", bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            jobs.append((tu, fo, ho, ass, bc, p))
        self.assumptions = []
        for tu, fo, ho, ass, bc, p in jobs:
            out = p.communicate()[0]
            self.assumptions += ass
            if p.returncode != 0:
                self.broken[tu] = out
                continue
            cmd = [self.irdump(), bc]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 0:
                self.broken[tu] = r.stderr[-2000:]
                continue
            _MODS[tu] = json.loads(r.stdout)
            names = [n[5:] for n, j in _MODS[tu]["fns"].items() if n.startswith("vp_h_") and not j.get("decl")]
            if not names:
                self.broken[tu] = "no contract in the compiled unit"
            for n in sorted(names):
                if n.startswith("T_") and TIER != "thorough":
                    continue
                o = dict(fo)
                for pat, kv in ho.items():
                    if re.fullmatch(pat, n):
                        o.update(kv)
                self.harn.append((tu, "vp_h_" + n, o))

    def left(self, by):
        return self.t0 + by - time.time()

    def prove(self):
        default = 300 if TIER == "quick" else 1500
        end = self.t0 + PROVE_BY
        jobs = [(tu, n, o, o.get("budget", default) if TIER == "quick" else default, end) for tu, n, o in self.harn]
        jobs.sort(key=lambda j: -j[2].get("weight", 1))
        self.results = []
        if not jobs:
            return
        with contextlib.closing(run_jobs(jobs, NPROC)) as done:
            for r in done:
                self.results.append(r)
                for f in r["failures"]:
                    if not f["label"].startswith("rep: ") and not self.is_known(r["name"][5:], f["label"]) and not self.violations:
                        p = self.try_values(r, f)
                        if p:
                            self.violations.append((p, False, f"{r['name'][5:]}: {f['label']} @ {f['where']}"))
                if os.environ.get("VP_V"):
                    print(f"  {r['name']:40s} {r['wall']:6.1f}s paths {r['paths']} vcs {r['vcs']} q {r['queries']} solver {r['solver_s']:.1f}s "
                          f"{'FAIL ' + str([f['label'] for f in r['failures']]) if r['failures'] else ''} {r['undecided'] or ''}", flush=True)
                if self.violations:
                    # reproduced on the real code: the remaining contracts do not change the verdict
                    break
        self.results.sort(key=lambda r: (r["tu"], r["name"]))

    def bmc_all(self, jobs, budget):
        """bounded search for real counterexamples: loops unrolled, no invariants.  jobs: (tu, vp_h_name)"""
        args = []
        for tu, name in jobs:
            o = dict(next(x for x in self.harn if x[0] == tu and x[1] == name)[2])
            o["bound_ok"] = True
            o["unroll"] = o.get("bmc_unroll", 10)
            o["no_inv"] = True
            args.append((tu, name, o, budget, self.t0 + JUDGE_BY))
        if not args:
            return
        with contextlib.closing(run_jobs(args, NPROC)) as done:
            yield from done

    # ------------------------------------------------------------ native side
    def build_native(self, src, access=True):
        if src in self.native:
            return self.native[src]
        extra = [os.path.join(REPO, x) for x in options(src)[2]]
        exe = os.path.join(self.tmp, os.path.basename(src) + ".native")
        flags = NATFLAGS
        if options(src)[0].get("san") == "thread":
            flags = ["-fsanitize=thread" if x.startswith("-fsanitize") else x for x in NATFLAGS if not x.startswith("-fno-sanitize-recover")]
        cmd = CXX + flags + (["-fno-access-control"] if access else []) + [src, os.path.join(CON, "vp_native.cc")] + extra + ["-o", exe]
        r = sh(cmd, timeout=300)
        if r.returncode != 0:
            self.notes.append(f"native build of {os.path.basename(src)} failed: {r.stdout[-600:]}")
            exe = None
        self.native[src] = exe
        return exe

    def write_replay(self, src, harness, label, where, values, extra=""):
        os.makedirs(self.replaydir, exist_ok=True)
        h = hashlib.sha1((harness + label).encode()).hexdigest()[:8]
        p = os.path.join(self.replaydir, f"{harness}_{h}.replay")
        with open(p, "w") as f:
            f.write(f"# property {self.pid}\n# contract {harness} in {os.path.relpath(src, ROOT)}\n# obligation {label}\n# at {where}\n")
            f.write(f"# run: {ROOT}/check {self.pid} --replay {p}\n")
            for l in extra.splitlines():
                f.write("# " + l + "\n")
            for v in values:
                if v[0] == "bits":
                    f.write(f"bits {v[1]} {v[2]} {v[3]}\n")
                else:
                    f.write(f"buf {v[1]} {''.join('%02x' % b for b in (v[2] or []))} {v[3]}\n")
        return p

    def native_replay(self, src, harness, path):
        exe = self.build_native(src)
        if not exe:
            return None, ""
        r = sh([exe, "replay", harness, path], timeout=60)
        return r.returncode, r.stdout

    def native_random(self, src, harness, secs, n=10**9, access=True):
        exe = self.build_native(src, access)
        if not exe:
            return None, None, ""
        out = os.path.join(self.tmp, f"rnd_{os.path.basename(src)}_{harness}.vals")
        r = sh([exe, "random", harness, str(SEED), str(n), out, str(secs)], timeout=secs + 120)
        return r.returncode, out, r.stdout

    # ------------------------------------------------------------ verdict
    def histories(self, secs, why):
        """run the public-API history drivers natively; report a violation if one fails"""
        found = False
        for src in self.hist:
            exe = self.build_native(src, False)
            names = sh([exe, "list", "-"]).stdout.split() if exe else []
            for n in names:
                t = time.time()
                rc, out, txt = self.native_random(src, n, secs, access=False)
                m = re.search(r"ran (\d+) skipped (\d+)", txt or "")
                self.hist_runs.append({"driver": n, "why": why, "ran": int(m.group(1)) if m else 0, "seconds": round(time.time() - t, 1), "rc": rc})
                threads = options(src)[0].get("san") == "thread"
                if rc == 1 or (rc == 2 and threads):
                    vals = self.read_vals(out)
                    p = self.write_replay(src, n, "history", "public-API history", vals, "found by the seeded history driver (bounded stand-in / witness search)")
                    r, o = self.native_replay(src, n, p)
                    for _ in range(9 if threads else 0):
                        if r in (0, 77, None):
                            r, o = self.native_replay(src, n, p)
                    if r not in (0, 77, None):
                        with open(p, "a") as f:
                            f.write("".join("# " + l + "\n" for l in o.splitlines()[:15]))
                        self.violations.append((p, False, n))
                        found = True
        return found

    def read_vals(self, out):
        vals = []
        for l in open(out, errors="replace"):
            w = l.split(" ")
            if w[0] == "bits":
                vals.append(["bits", int(w[1]), int(w[2]), w[3].strip() if len(w) > 3 else ""])
            elif w[0] == "buf":
                vals.append(["buf", int(w[1]), list(bytes.fromhex(w[2])) if w[2].strip() else [], w[3].strip() if len(w) > 3 else ""])
        return vals

    def try_values(self, r, f):
        src = r["tu"]
        hn = r["name"][5:]
        if self.noreplay(src):
            return None
        for v in f["values"]:
            if "values" not in v:
                continue
            p = self.write_replay(src, hn, f["label"], f["where"], v["values"], f"failed {f['kind']} obligation; values are the solver's counterexample")
            rc, out = self.native_replay(src, hn, p)
            if rc in (0, 77, None, 2):
                continue
            with open(p, "a") as fh:
                fh.write(f"# replayed on the real code: exit {rc}\n" + "".join("# " + l + "\n" for l in out.splitlines()[:25]))
            return p
        return None

    def noreplay(self, src):
        """contracts about other threads: the interference exists only in the proof, so a native run decides nothing"""
        return options(src)[0].get("replay") == "no"

    def is_known(self, hn, label):
        for k in self.known:
            if k[1] == hn and k[2] == label:
                return k
        return None

    def random_all(self, jobs, secs):
        """seeded native runs of the contracts with random inputs.  jobs: (tu, name)"""
        from concurrent.futures import ThreadPoolExecutor

        for tu in {j[0] for j in jobs}:
            self.build_native(tu)
        with ThreadPoolExecutor(NPROC) as ex:
            return list(zip(jobs, ex.map(lambda j: self.native_random(j[0], j[1], secs), jobs)))

    def judge(self):
        self.bounded = []
        failing = []
        for r in self.results:
            hn = r["name"][5:]
            src = r["tu"]
            fails = []
            for f in r["failures"]:
                k = self.is_known(hn, f["label"])
                if k:
                    self.known_hit[k] = True
                else:
                    fails.append(f)
            rep = [f for f in fails if f["label"].startswith("rep: ")]
            obs = [f for f in fails if not f["label"].startswith("rep: ")]
            if obs:
                failing.append((src, hn, obs))
                continue
            und = dict(r["undecided"])
            if not und and not fails:
                if not r["obls"]:
                    und["vacuous"] = "no obligation generated"
                if r["ends"] == 0:
                    und["vacuous"] = "no path reaches the end of the contract"
            if rep:
                und["representation"] = "; ".join(f["label"] for f in rep)
            if und:
                self.bounded.append({"contract": hn, "tu": src, "reason": und})
        for tu, out in self.broken.items():
            self.bounded.append({"contract": "*", "tu": tu, "reason": {"front end": out[-1500:]}})
        for b in self.bounded:
            self.notes.append(f"undecided: {b['contract']}: {b['reason']}")
        if self.violations:
            return
        # contracts without a reproduced failure but with a failed or open obligation: look for a real witness
        byname = {(b["tu"], b["contract"]): b for b in self.bounded if b["contract"] != "*"}
        jobs = [(s_, "vp_h_" + n) for s_, n, _ in failing] + [(b["tu"], "vp_h_" + b["contract"]) for b in byname.values()]
        jobs = [j for j in jobs if not self.noreplay(j[0])]
        budget = max(10, min(90, self.left(JUDGE_BY - 120) / max(1, (len(jobs) + NPROC - 1) // NPROC)))
        for rb in self.bmc_all(jobs, budget):
            hn = rb["name"][5:]
            b = byname.get((rb["tu"], hn))
            if b is not None:
                b["bmc"] = {"paths": rb["paths"], "undecided": rb["undecided"]}
            for f in rb["failures"]:
                if f["label"].startswith("rep: ") or self.is_known(hn, f["label"]):
                    continue
                p = self.try_values(rb, f)
                if p:
                    self.violations.append((p, False, f"{hn}: {f['label']} @ {f['where']}"))
                    return
        obs_of = {(s_, n): o for s_, n, o in failing}
        jobs = list(obs_of) + [k for k, b in byname.items() if "representation" not in b["reason"]]
        jobs = [j for j in jobs if not self.noreplay(j[0])]
        for (src, hn), (rc, out, txt) in self.random_all(jobs, 8) if jobs else []:
            m = re.search(r"ran (\d+)", txt or "")
            if (src, hn) in byname:
                byname[(src, hn)]["random_runs"] = int(m.group(1)) if m else 0
            if rc == 1 and not self.violations:
                o = obs_of.get((src, hn))
                label, where = (o[0]["label"], o[0]["where"]) if o else ("bounded stand-in", "")
                if self.known and any(k[1] == hn for k in self.known):
                    continue
                p = self.write_replay(src, hn, label, where, self.read_vals(out), "found by a seeded search after the obligation was not discharged")
                rc, o = self.native_replay(src, hn, p)
                if rc not in (0, 77, None):
                    self.violations.append((p, False, f"{hn}: {label}"))
        if self.violations:
            return
        if self.hist and (failing or self.bounded or TIER == "thorough"):
            self.histories(60 if TIER == "thorough" else 15, "witness search or bounded stand-in" if failing or self.bounded else "thorough tier")
            if self.violations:
                return
        if failing:
            src, hn, obs = failing[0]
            f = obs[0]
            vals = next((v["values"] for v in f["values"] if "values" in v), [])
            p = self.write_replay(src, hn, f["label"], f["where"], vals,
                                  f"obligation not discharged: {f['kind']}: {f['label']}\nsolver answer: satisfiable (values below are the verifier's state)\nno input reproducing it was found on the real code\nall failed obligations: " + "; ".join(f"{n}: {x['label']}" for _, n, o in failing for x in o))
            self.violations.append((p, True, f"{hn}: {f['label']} @ {f['where']}"))

    def evidence(self, t0):
        obl = disc = 0
        byk = {}
        fns = {}
        by = {}
        und = {b["contract"] for b in self.bounded}
        invs = []
        bnd = []
        pats = [b for f in sorted(glob.glob(os.path.join(ROOT, "contracts", self.pid + "*.cc"))) for b in bounds(f)]
        for r in self.results:
            b = next((t for p, t in pats if re.fullmatch(p, r["name"][5:])), None)
            if b:
                bnd.append({"contract": r["name"][5:], "bound": b, "obligations": len(r["obls"]), "open": len(r["undecided"]) + len(r["failures"]),
                            "paths": r["paths"], "solver_s": round(r["solver_s"], 2)})
            for kind, label, n, ok in r["obls"] if not b else []:
                obl += 1
                bad = any(u.startswith(kind + ": " + label) for u in r["undecided"]) or any(f["label"] == label for f in r["failures"])
                inc = any(k in ("budget", "unsupported", "internal", "loops", "path feasibility") for k in r["undecided"])
                if n == ok and not bad and not inc:
                    disc += 1
                byk[kind] = byk.get(kind, 0) + 1
            for f, l in r["functions"].items():
                fns.setdefault(f, set()).update(l)
            for k, (n, s) in r["by"].items():
                x = by.setdefault(k, [0, 0.0])
                x[0] += n
                x[1] += s
            invs += [dict(i, contract=r["name"][5:]) for i in r["invs"]]
        models = sorted({m for r in self.results for m in r["models"]})
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": "proof" if obl else "other",
            "coverage": {
                **({} if obl else {"explanation": "every contract of this property is a bounded stand-in: all inputs up to the stated size, decided by the same verifier"}),
                "bounded_stand_ins": bnd,
                "obligations": obl, "discharged": disc, "checker_cmd": f"./check {self.pid}",
                "trusted_base": ["clang 18 front end (C++ to LLVM IR, -O0) and the LLVM passes sroa, simplifycfg, early-cse",
                                 "tools/irdump.cc and vp/engine.py (IR semantics, VC generation)",
                                 "z3 5.3.2 / 4.8.12, cvc5 1.1.2 answers",
                                 "vp/builtins.py models of memcpy, memset, operator new, malloc, ... (the C and C++ runtime)",
                                 "the contract text in contracts/ states the property"] + [f"model of external function {m}" for m in models],
                "contracts": len(self.results),
                "verification_conditions": sum(r["vcs"] for r in self.results),
                "discharged_by_simplification": sum(r["trivial"] for r in self.results),
                "paths": sum(r["paths"] for r in self.results),
                "obligations_by_kind": byk,
                "solver_queries": sum(r["queries"] for r in self.results),
                "solver_seconds": round(sum(r["solver_s"] for r in self.results), 2),
                "back_ends": {k: {"queries": v[0], "seconds": round(v[1], 2)} for k, v in by.items()},
                "functions_under_contract": {f: sorted(l) for f, l in sorted(fns.items())},
                "callee_contracts_substituted": sorted({c for r in self.results for c in r["contracts_used"]}),
                "loop_invariants": invs[:60],
                "bounded_not_proved": [{"contract": b["contract"], "reason": {k: str(v)[:300] for k, v in b["reason"].items()}, **({"bmc": b["bmc"]} if "bmc" in b else {}), **({"random_runs": b["random_runs"]} if "random_runs" in b else {})} for b in self.bounded],
                "history_driver_runs": self.hist_runs,
                "per_contract": [{"contract": r["name"][5:], "obligations": len(r["obls"]), "vcs": r["vcs"], "paths": r["paths"], "solver_s": round(r["solver_s"], 2),
                                  "complete_paths": r["ends"], "covers": sorted(r["covers"])} for r in self.results],
            },
            "assumptions": self.assumptions + [
                "machine integers and IEEE floats are treated bit-precisely for x86-64 (LP64); round-to-nearest",
                "templates are proved for the listed instantiations only",
                "operator new does not fail",
            ],
            "wall_s": round(time.time() - t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.obl, self.disc = obl, disc
        self.nbnd = len(bnd)

    def run(self):
        t0 = self.t0 = time.time()
        try:
            self.compile()
            self.prove()
            self.judge()
            self.evidence(t0)
        finally:
            if not os.environ.get("VP_KEEP"):
                shutil.rmtree(self.tmp, ignore_errors=True)
        for n in self.notes:
            print("NOTE", n[:1500])
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {k[3]}")
        print(f"{self.pid}: {len(self.results)} contracts, {self.disc}/{self.obl} obligations discharged{f', {self.nbnd} bounded stand-ins' if self.nbnd else ''}, {time.time()-t0:.1f}s")
        if self.violations:
            for p, nofail, what in self.violations[:1]:
                print(f"  {what}")
                print(f"VIOLATION property={self.pid} replay={p}" + (" no-failing-input-found" if nofail else ""))
            return 1
        return 0


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        c = Check(pid)
        txt = open(sys.argv[3]).read()
        m = re.search(r"# contract (\S+) in (\S+)", txt)
        rc, out = c.native_replay(os.path.join(ROOT, m.group(2)), m.group(1), sys.argv[3])
        print(out)
        print("exit", rc)
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 0 if rc == 0 else 1
    return Check(pid).run()


if __name__ == "__main__":
    sys.exit(main())
