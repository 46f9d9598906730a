#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property;  check.py replay FILE  run recorded scenarios again

Builds from /repo's current sources, records calls of the real code, lets TLC judge the recorded
events by the specification, and replays behaviours of the specification into the real code.
"""
import json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VERIF_BUDGET", "600"))          # seconds a thorough check goes on finding new cases

# property -> families of recorded scenarios (share of the events)
FAMILIES = {
    "C01": {"addsub": 16000}, "C02": {"mul": 16000}, "C03": {"div": 16000}, "C04": {"rem": 12000},
    "C05": {"fma": 18000}, "C06": {"sos": 16000}, "C07": {"sqrt": 14000}, "C08": {"scale": 16000},
    "C09": {"integral": 16000}, "C10": {"cmp": 12000, "minmax": 14000}, "C11": {"tcmp": 16000},
    "C12": {"class": 12000, "ulp": 8000, "parts": 8000}, "C13": {"bits": 12000},
    "C14": {"ints": 16000}, "C15": {"floats": 16000}, "C16": {"grammar": 16000},
    "C17": {"parse": 8000}, "C18": {"fixed": 7000}, "C19": {"shortest": 4000}, "C20": {"padding": 10500},
    "C21": {"angles": 12000}, "C22": {"logs": 4000}, "C23": {"trig": 4500}, "C24": {"atrig": 3000, "atan2": 2500},
    "C25": {"special": 9000}, "C26": {"forms": 16000}, "C27": {"consts": 40},
    "C28": {},
}

# property -> kinds of hard cases constructed by spec/Gen.tla, cases per process
KINDS = {
    "C01": ("add addtie", 1000), "C02": ("mul square mulwords", 1000), "C03": ("div divedge divwords", 1000),
    "C04": ("rem remnear remwords", 1000),
    "C05": ("fma fmacancel fmatail fmawords fmafar", 1000), "C06": ("sos sostie square", 1000), "C07": ("sqrt", 1000),
    "C08": ("scale", 1000), "C09": ("integral", 1000), "C12": ("ulp", 1000),
    "C17": ("parsemid parseshort parsenear", 1000),
    "C18": ("fmtsci fmtfar fmtfixed", 800), "C19": ("short shortedge", 500), "C21": ("angle", 1000),
    "C22": ("lognear log", 330), "C23": ("trigmult trigdist trigworst trig", 330), "C24": ("asinnear asin atan atan2", 300),
}

# property -> families of spec/Sweep.tla, gone through systematically (thorough: also those after the bar)
SWEEPS = {
    "C01": "add adds", "C02": "mulunder muls mulshort mulsub", "C03": "divunder divs divshort", "C04": "rem rems", "C05": "fma fmas fmashort", "C06": "sos soss sosshort",
    "C07": "sqrt", "C08": "scale", "C09": "integral", "C10": "orders clamp", "C11": "orders", "C12": "ulp classbits", "C13": "bits",
    "C14": "int", "C15": "float", "C16": "gram3 char spell | gram4", "C17": "parse exact exactfar exactlong exactshift parsetie parseclose parseexact parsefar parseedge parsepow",
    "C18": "sci prec tie carry pow10sci", "C19": "shortexp shortsub shortint shortclose shorttie pow10 pow10far", "C20": "pad", "C21": "angle", "C22": "log",
    "C23": "trigexp trigseg trigbig", "C24": "atan atanexp atan2s", "C25": "pairs unary unaryn later fmas", "C26": "pairs unary",
}

# property -> invariants of Tiny.tla (format P=3, EW=3 in quick; larger ones in thorough)
ARITH = ["RoundingIsNearest", "SpecialValues", "Algebra", "Monotone"]
TINY = {
    "C01": ARITH, "C02": ARITH, "C03": ARITH, "C04": ["RemIsExact", "SpecialValues"], "C05": ["FmaIsNearest"],
    "C06": ARITH, "C07": ["SqrtIsNearest", "Monotone"], "C08": ["Algebra"], "C09": ["Integral"],
    "C10": ["Order"], "C11": ["Order"], "C12": ["Encoding"], "C14": ["Encoding"], "C15": ["Encoding"],
    "C25": ["SpecialValues"], "C28": ["Algebra"],
}
TINYTEXT = {
    "C16": ["ReadNearest"], "C17": ["ReadNearest", "ReadMiddle"], "C18": ["FixedShows", "SciShows"], "C19": ["ShortestSet", "ShortReads"],
    "C20": ["Padding"],
}
THIN = 8
TEXTFORMATS = {"quick": [(2, 4)], "thorough": [(2, 4), (3, 4), (4, 4)]}
FORMATS = {"quick": [(3, 3)], "thorough": [(3, 3), (2, 4), (4, 3), (3, 4)]}


def die(msg):
    print(msg, file=sys.stderr)
    sys.exit(2)


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.dir = os.path.join(B, "run", f"{pid}.{tier}.{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.events = self.traces = self.generated = 0
        self.ops, self.known, self.samples, self.bad = {}, {}, [], []
        self.models, self.distinct, self.swept = [], set(), {}
        kf = json.load(open(os.path.join(V, "known_findings.json")))
        self.findings = {f["name"]: f for f in kf["findings"] if pid in f["properties"]}

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # -- the real code -----------------------------------------------------------------------
    def harness(self, *args, profile="release"):
        exe = os.path.join(B, "target", profile, "harness")
        try:
            r = subprocess.run([exe, *map(str, args)], stderr=subprocess.PIPE, timeout=400 if self.tier == "quick" else 600)
        except subprocess.TimeoutExpired:
            self.violation([dict(what="no answer", args=list(map(str, args)))], "the code under test did not return")
        if r.returncode:
            err = r.stderr.decode(errors="replace")[-600:]
            if r.returncode < 0 or "overflow" in err:   # killed by a signal: the code under test did that
                self.violation([dict(what="crash", args=list(map(str, args)), stderr=err)], "the code under test crashed")
            die("harness failed: " + err)

    # -- TLC ---------------------------------------------------------------------------------
    def tlc(self, module, cfg, *args, env=None, timeout=800):
        meta = os.path.join(self.dir, "md")
        out = subprocess.run([os.path.join(V, "tlc.sh"), "-workers", "8", "-metadir", meta, "-config", cfg, *args, module + ".tla"],
                             cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             timeout=timeout).stdout.decode(errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, 0 states left", out)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        return out

    def model(self, module, consts, invs, timeout=800):
        """Exhaustive check of a model; a failure is a defect of the specification, not of the code."""
        cfg = os.path.join(self.dir, "model.cfg")
        open(cfg, "w").write("CONSTANTS " + "\n ".join(f"{k} = {v}" for k, v in consts.items())
                             + "\nINIT Init\nNEXT Next\nINVARIANTS " + " ".join(invs) + "\nCHECK_DEADLOCK FALSE\n")
        s0, t0 = self.states, time.time()
        out = self.tlc(module, cfg, timeout=timeout)
        if "No error has been found" not in out or self.states == s0:
            open(os.path.join(B, f"tlc-error.{self.pid}.txt"), "w").write(out)
            die(f"model {module} failed:\n" + out[-1500:])
        self.models.append(dict(module=module, constants=consts, invariants=invs, distinct_states=self.states - s0,
                                wall_s=round(time.time() - t0, 1)))

    def selftest(self):
        """The integer machinery of TLC (java/) against the definitions of spec/BigNum.tla."""
        out = self.tlc("SelfTest", "SelfTest.cfg")
        if "No error has been found" not in out:
            die("SelfTest failed:\n" + out[-1500:])
        self.models.append(dict(module="SelfTest"))

    def tiny(self):
        for p, ew in TEXTFORMATS[self.tier]:
            if self.pid in TINYTEXT:
                self.model("TinyText", dict(P=p, EW=ew), TINYTEXT[self.pid])
        for p, ew in FORMATS[self.tier]:
            invs = TINY.get(self.pid)
            if invs:
                if "FmaIsNearest" in invs:                  # three operands: one format size less
                    p, ew = (2, 3) if self.tier == "quick" else {(4, 3): (2, 3), (3, 4): (4, 2)}.get((p, ew), (p, ew))
                self.model("Tiny", dict(P=p, EW=ew), invs)

    def calibrate(self):
        """Independent implementations judged by the same specification: the built-in f64 (P=53, EW=11)
        and, for the elementary functions, mpmath.  A deviation is a defect of the specification."""
        def run(cfg, path):
            out = self.tlc("Trace", cfg, env={"TRACE": path})
            m = re.search(r'"EVENTS", (\d+), "STATES", (\d+), (\d+)', out)
            if not m or m[2] != m[3]:
                die("calibration did not finish: " + out[-1500:])
            return int(m[1]), len(re.findall(r'"(?:MISMATCH|KNOWN)", \d+', out))
        if self.pid in ("C21", "C22", "C23", "C24"):
            good, bad = os.path.join(self.dir, "good.nd"), os.path.join(self.dir, "bad.nd")
            subprocess.run(["python3-vt", os.path.join(V, "tools", "oracle.py"), str(SEED), "2600", good, bad], check=True)
            g, b = run("Trace.cfg", good), run("Trace.cfg", bad)
            if g[1] != 0 or b[1] != b[0]:
                die(f"calibration with mpmath failed: {g} {b}")
            self.models.append(dict(calibration="mpmath", accepted=g[0], rejected_when_moved=b[0]))
        else:
            path = os.path.join(self.dir, "f64.nd")
            self.harness("std64", SEED, 40000, path)
            n, bad = run("Trace64.cfg", path)
            if bad:
                die(f"calibration with f64 failed: {bad} of {n} events")
            self.models.append(dict(calibration="built-in f64", accepted=n))

    # -- programs (C28) ------------------------------------------------------------------------
    def programs(self, seed, n, length, profile="release"):
        """Programs run by the harness, judged by ProgTrace."""
        path = os.path.join(self.dir, "prog.ndjson")
        self.harness("prog", seed, n, length, path, profile=profile)
        progs = [json.loads(l) for l in open(path)]
        out = self.tlc("ProgTrace", "ProgTrace.cfg", env={"TRACE": path})
        m = re.search(r'"PROGRAMS", (\d+), "EVENTS", (\d+), "STATES", (\d+), (\d+)', out)
        if not m or int(m[1]) != len(progs) or m[3] != m[4] or re.search(r"^Error|Exception", out, re.M):
            open(os.path.join(B, f"tlc-error.{self.pid}.txt"), "w").write(out)
            die("TLC did not finish ProgTrace\n" + "\n".join(l for l in out.splitlines() if "rror" in l)[:1500])
        self.events += int(m[2])
        self.traces += len(progs)
        for q in progs:
            for e in q["events"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
                self.distinct.add(hash(json.dumps(e)))
        if not self.samples:
            self.samples = [dict(init=q["init"], events=q["events"][:4]) for q in progs[:2]]
        for i, k in sorted({(int(a), int(b)) for a, b in re.findall(r'"MISMATCH", (\d+), (\d+)', out)}):
            q = progs[i - 1]
            self.bad.append(dict(q["events"][k - 1], program=i, step=k, seed=seed, history=q["events"][max(0, k - 4):k - 1]))
        os.unlink(path)
        if self.bad:
            self.violation(self.bad, "steps of programs that the specification does not allow")

    def behaviours(self, seed, n, depth, procs, profile="release"):
        """Behaviours of CalcGen replayed in the code: every predicted register must be there."""
        lines = self.simulate("CalcGen", "CALC", n, depth, seed, procs)
        path, out = os.path.join(self.dir, "b.calc"), os.path.join(self.dir, "b.out")
        open(path, "w").write("\n".join(lines) + "\n")
        self.harness("calc", path, out, profile=profile)
        res = [json.loads(l) for l in open(out)]
        tot = res.pop()
        if tot["programs"] < n * procs or tot["steps"] < n * procs * (depth - 2):
            die(f"too few behaviours: {tot}")
        self.events += tot["steps"]
        self.traces += tot["programs"]
        for l in lines:
            op = l[:l.index("|")]
            self.ops["replayed " + op] = self.ops.get("replayed " + op, 0) + 1
            self.distinct.add(hash(l))
        if len(self.samples) < 8:
            self.samples.append(dict(behaviour=lines[:6]))
        if res:
            self.bad = [dict(r, behaviour=lines[r["begin"] - 1:r["line"]]) for r in res[:50]]
            self.violation(self.bad, "behaviours of the specification that the code does not follow")

    def judge(self, path):
        """Let TLC judge the recorded events in path; collects deviations."""
        lines = open(path).read().splitlines()
        random.Random(SEED).shuffle(lines)                  # spread the slow ones over TLC's workers
        open(path, "w").write("\n".join(lines) + "\n")
        out = self.tlc("Trace", "Trace.cfg", env={"TRACE": path})
        m = re.search(r'"EVENTS", (\d+), "STATES", (\d+), (\d+)', out)
        if not m or int(m[1]) != len(lines) or m[2] != m[3] or re.search(r"^Error|Exception", out, re.M):
            keep = os.path.join(B, f"tlc-error.{self.pid}.txt")
            open(keep, "w").write(out)
            die(f"TLC did not finish: see {keep}\n" + "\n".join(l for l in out.splitlines() if "rror" in l)[:1500])
        self.events += len(lines)
        self.traces += min(32, len(lines))
        for l in lines:
            self.distinct.add(hash(l))
            op = l[7:l.index('"', 7)]
            self.ops[op] = self.ops.get(op, 0) + 1
        if len(self.samples) < 8:
            for l in random.Random(SEED).sample(lines, min(4, len(lines))):
                self.samples.append(json.loads(l))
        for i in sorted({int(x) for x in re.findall(r'"MISMATCH", (\d+)', out)}):
            self.bad.append(json.loads(lines[i - 1]))
        for i, k in {(int(a), b) for a, b in re.findall(r'"KNOWN", (\d+), "([^"]+)"', out)}:
            if k in self.findings:
                self.known.setdefault(k, []).append(lines[i - 1])
            else:
                self.bad.append(json.loads(lines[i - 1]))
        os.unlink(path)
        if self.bad:
            self.violation(self.bad, "events the specification does not allow")

    def record(self, families, seed, profile="release", scale=1.0, lines=()):
        """Run the harness' own families of calls and the scenarios in lines; let TLC judge the events."""
        path = os.path.join(self.dir, "trace.ndjson")
        one = os.path.join(self.dir, "one.ndjson")
        with open(path, "w") as all_:
            for fam, n in families.items():
                self.harness("record", fam, seed, int(n * scale), one, profile=profile)
                all_.write(open(one).read())
            if lines:
                scn = os.path.join(self.dir, "s.scn")
                open(scn, "w").write("\n".join(lines) + "\n")
                self.harness("exec", scn, one, profile=profile)
                all_.write(open(one).read())
        self.judge(path)

    def scenarios(self, lines, profile="release"):
        self.record({}, 0, profile, lines=lines)

    def simulate(self, module, tag, num, depth, seed, procs, env=None):
        """Simulate a generating module; returns the lines it printed."""
        env = {**os.environ, "TLC_JAVA_OPTS": "-Xmx2g", **(env or {})}
        ps = []
        for i in range(procs):
            out = open(os.path.join(self.dir, f"gen{i}.out"), "w+")
            meta = os.path.join(self.dir, f"gmd{i}")
            ps.append((out, subprocess.Popen(
                [os.path.join(V, "tlc.sh"), "-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed * 16 + i), "-workers", "1",
                 "-metadir", meta, "-config", module + ".cfg", module + ".tla"], cwd=SPEC,
                env={**env, "PROC": str(i), "PROCS": str(procs)}, stdout=out, stderr=subprocess.STDOUT)))
        lines = []
        for out, p in ps:
            p.wait(timeout=700)
            out.seek(0)
            txt = out.read()
            got = re.findall(r'^"' + tag + r':(.*)"$', txt, re.M)
            m = re.search(r"The number of states generated: ([\d,]+)", txt)
            if module == "Sweep":
                ok = '"SWEPT:end"' in txt
                self.swept.update({k: int(n) for k, n in re.findall(r'^"SWEPT:(\w+):(\d+)"$', txt, re.M)})
            else:
                ok = len(got) >= num * depth // 3
            if not m or not ok or re.search(r"^Error|Exception", txt, re.M):
                die(f"{module}.tla failed: " + txt[-1500:])
            self.generated += int(m[1].replace(",", ""))
            lines += got
            out.close()
            os.unlink(out.name)
            shutil.rmtree(os.path.join(self.dir, f"gmd{ps.index((out, p))}"), ignore_errors=True)
        return lines

    def generate(self, kinds, n, seed, sweep="", thin=1, procs=6):
        """spec/Sweep.tla: systematic families, then n cases per process of the kinds of spec/Gen.tla whose
        exact results lie on or next to decision points."""
        env = dict(KINDS=kinds, MORE=str(n if kinds else 0), SWEEP=sweep, THIN=str(thin), OFFSET=str(seed % thin))
        return self.simulate("Sweep", "SCN", 1, 1000000, seed, procs, env=env)

    # -- results -----------------------------------------------------------------------------
    def evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events=self.events, distinct_events=len(self.distinct), operations=self.ops, generated_states=self.generated, swept_families=self.swept,
                   known_finding_events={k: len(v) for k, v in self.known.items()},
                   models=self.models, samples=self.samples[:8])
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level="model_checking", coverage=cov,
                  assumptions=["TLC with unlimited integers (java/, checked by SelfTest.tla)",
                               "operands are sampled; the specification is exact"],
                  wall_s=round(time.time() - self.t0, 1), violations=violations)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)

    def violation(self, bad, what):
        os.makedirs(os.path.join(B, "replay"), exist_ok=True)
        path = os.path.join(B, "replay", f"{self.pid}.json")
        json.dump(dict(property=self.pid, tier=self.tier, seed=SEED, what=what, events=bad[:200]), open(path, "w"), indent=1)
        if not self.samples:
            self.samples = bad[:4]
        self.evidence(len(bad))
        print(f"{what}: {len(bad)}; first: {json.dumps(bad[0])[:1500]}")
        print(f"VIOLATION property={self.pid} replay={path}")
        shutil.rmtree(self.dir, ignore_errors=True)
        sys.exit(1)

    def done(self):
        for name, f in self.findings.items():
            n = len(self.known.get(name, []))
            print(f"KNOWN-FINDING: property={self.pid} {name}: {f['what']} ({n} events of this run)")
        self.evidence(0)
        print(f"OK {self.pid} {self.tier}: {self.events} events of the code accepted by the specification, "
              f"{self.states} states, {time.time() - self.t0:.1f} s")
        shutil.rmtree(self.dir, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        subprocess.run([os.path.join(V, "setup.sh")], check=True)
        r = Run(d["property"], "quick")
        ev = d["events"]
        r.scenarios([scenario(e) for e in ev if "op" in e and e["op"] != "load"] or ["bytes|" + "0" * 64 + "||"])
        for e in ev:
            if "behaviour" in e:
                path, out = os.path.join(r.dir, "b.calc"), os.path.join(r.dir, "b.out")
                open(path, "w").write("\n".join(e["behaviour"]) + "\n")
                r.harness("calc", path, out)
                bad = [json.loads(l) for l in open(out)][:-1]
                if bad:
                    r.violation([dict(b, behaviour=e["behaviour"]) for b in bad], "behaviours of the specification that the code does not follow")
        print("no deviation")
        return
    pid, tier = sys.argv[1], sys.argv[2]
    profiles = ["release"] if tier == "quick" else ["release", "checked"]
    if subprocess.run([os.path.join(V, "setup.sh"), *profiles]).returncode:
        die("build failed")
    r = Run(pid, tier)
    fam = FAMILIES[pid]
    kinds = KINDS.get(pid, ("", 0))
    r.selftest()
    r.tiny()
    if tier == "thorough":
        r.calibrate()
    if pid == "C28":
        r.model("CalcTiny", dict(P=3, EW=3, NR=2, HL=2), ["TypeOK", "Provenance"])
        if tier == "quick":
            r.behaviours(SEED, 15, 100, 6)
            r.programs(SEED, 400, 50)
        else:
            k, cost = 0, 0
            while k == 0 or (r.left(780) > 1.3 * cost and r.left(BUDGET) > 0):
                t = time.time()
                r.behaviours(SEED * 1000 + k, 60, 150, 7, profile=profiles[k % 2])
                r.programs(SEED * 1000 + k, 1500, 80, profile=profiles[k % 2])
                k, cost = k + 1, max(cost, time.time() - t)
    elif tier == "quick":
        lines = r.generate(*kinds, SEED, SWEEPS.get(pid, "").split("|")[0], THIN)
        r.record(fam, SEED, lines=lines)
    else:
        k, cost = 0, 0
        while k == 0 or (r.left(780) > 1.3 * cost and r.left(BUDGET) > 0 and "consts" not in fam):
            t = time.time()
            lines = r.generate(kinds[0], kinds[1] * 3, SEED * 1000 + k, SWEEPS.get(pid, "").replace("|", "") if k < 2 or k % 3 == 0 else "", 1 if k < 1 else 4)
            r.record(fam, SEED * 1000 + k, profile=profiles[k % 2], scale=min(4.0, 40000 / sum(fam.values())), lines=lines)
            k, cost = k + 1, max(cost, time.time() - t)
    r.done()


def scenario(e):
    return "|".join([e["op"], ",".join(e["a"]), ",".join(e["n"]), bytes(e["s"]).hex()])


main()
