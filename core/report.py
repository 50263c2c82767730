"""Obligation bookkeeping, evidence files and the outcome policy shared by all checks."""
import json
import os
import subprocess
import sys
import time

import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))


def known_findings(prop):
    """Entries of the committed known-findings file for one property (never written at run time)."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                kv, _, text = line[len("finding: "):].partition(" | ")
                first, _, ob = kv.partition(" obligation=")
                d = {"property": first.split("=", 1)[1].strip(), "obligation": ob.strip()}
                if not d["obligation"]:
                    continue
                if d.get("property") == prop:
                    d["text"] = text
                    out.append(d)
    return out


class Check:
    """All obligations of one property on one run."""

    def __init__(self, prop, tier="quick", level="proof"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.seed = SEED
        self.obligations = []        # dict(name, status, backend, time, detail)
        self.functions = {}          # function -> note
        self.assumptions = []
        self.trusted = []
        self.backends = {}
        self.solver_time = 0.0
        self.notes = {}
        self.timeout_ms = 60000 if tier == "quick" else 300000
        self.covers = []
        self.bounded = []
        self.failed_fast = False
        self.keep = None             # predicate on obligation names: the property's own part of a shared harness

    # ---- registration
    def under_contract(self, *names):
        for n in names:
            self.functions.setdefault(n, 0)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def trust(self, text):
        if text not in self.trusted:
            self.trusted.append(text)

    def ob(self, name, ok, detail="", backend="evaluation", status=None, t=0.0):
        st = status or ("discharged" if ok else "refuted")
        if self.keep is not None and st != "undecided" and not self.keep(name):
            return st == "discharged"
        self.obligations.append(dict(name=name, status=st, backend=backend, time=t, detail=str(detail)[:7000]))
        self.backends[backend] = self.backends.get(backend, 0) + (1 if st == "discharged" else 0)
        return st == "discharged"

    def undecided(self, name, detail):
        return self.ob(name, False, detail, backend="engine", status="undecided")

    def prove(self, name, hyps, goal, detail=""):
        """Discharge hyps |- goal with z3 (cvc5 when z3 gives up, and again in the thorough tier)."""
        if goal is True:
            return self.ob(name, True)
        if goal is False:
            goal = z3.BoolVal(False)
        t = time.time()
        hy = [h for h in hyps if h is not True]
        g = z3.simplify(goal)
        if z3.is_true(g):
            return self.ob(name, True, backend="z3-simplify", t=time.time() - t)
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for h in hy:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        if r == z3.unsat:
            if self.tier == "thorough":
                r2 = cvc5_check(s, self.timeout_ms)
                if r2 == "sat":
                    return self.ob(name, False, "z3 unsat but cvc5 sat", backend="z3+cvc5",
                                   status="undecided", t=dt)
                return self.ob(name, True, backend="z3+cvc5" if r2 == "unsat" else "z3", t=dt)
            return self.ob(name, True, backend="z3", t=dt)
        if r == z3.sat:
            m = s.model()
            return self.ob(name, False, "%s counterexample: %s" % (detail, model_str(m)), backend="z3", t=dt)
        r2 = cvc5_check(s, self.timeout_ms)
        dt = time.time() - t
        self.solver_time += dt
        if r2 == "unsat":
            return self.ob(name, True, backend="cvc5", t=dt)
        return self.ob(name, False, "%s solver result: z3 unknown (%s), cvc5 %s" % (detail, s.reason_unknown(), r2),
                       backend="z3", status="undecided", t=dt)

    def cover(self, name, hyps):
        """Vacuity guard: hypotheses must be satisfiable."""
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*[h for h in hyps if h is not True])
        r = s.check()
        self.covers.append((name, str(r)))
        if r != z3.sat:
            self.ob("cover:" + name, False, "hypotheses not satisfiable: %s" % r, status="undecided")
        return r == z3.sat

    # ---- outcome
    def failures(self):
        return [o for o in self.obligations if o["status"] != "discharged"]

    def merge(self, recs):
        """Add obligations computed in worker processes."""
        for o in recs["obligations"]:
            self.obligations.append(o)
            self.backends[o["backend"]] = self.backends.get(o["backend"], 0) + (o["status"] == "discharged")
        self.solver_time += recs["solver_time"]
        for f, n in recs["functions"].items():
            self.functions.setdefault(f, n)
        for a in recs["assumptions"]:
            self.assume(a)
        for a in recs["trusted"]:
            self.trust(a)
        self.covers.extend(recs["covers"])
        self.bounded.extend(b for b in recs.get("bounded", []) if b not in self.bounded)

    def export(self):
        return dict(obligations=self.obligations, solver_time=self.solver_time, functions=self.functions,
                    assumptions=self.assumptions, trusted=self.trusted, covers=self.covers, bounded=self.bounded)

    def evidence(self, violations):
        by_fn = {}
        for o in self.obligations:
            k = o["name"].split(":")[0]
            by_fn[k] = by_fn.get(k, 0) + 1
        cov = dict(
            obligations=len(self.obligations),
            discharged=sum(o["status"] == "discharged" for o in self.obligations),
            checker_cmd="python3-vt check.py %s --tier %s" % (self.prop, self.tier),
            trusted_base=self.trusted,
            functions_under_contract=sorted(self.functions),
            obligations_by_group=dict(sorted(by_fn.items())[:120]),
            discharged_by_backend={k: v for k, v in self.backends.items() if v},
            solver_time_s=round(self.solver_time, 2),
            vacuity_covers=len(self.covers),
            vacuity_covers_sat=sum(c[1] == "sat" for c in self.covers),
            bounded_standins=self.bounded,
            failed_obligations=[dict(name=o["name"], status=o["status"], detail=o["detail"].split(" JSON:")[0][:300])
                                for o in self.failures()[:20]],
            slowest=[dict(name=o["name"], s=round(o["time"], 2)) for o in
                     sorted(self.obligations, key=lambda o: -o["time"])[:5]],
        )
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self, falsifier=None, falsifier_always=None):
        """Decide the outcome.  falsifier(check) runs the real code; returns (text, replay_obj) or None."""
        fails = self.failures()
        n = len(self.obligations)
        if n == 0:
            self.undecided("engine:no-obligations", "no obligation was generated")
            fails = self.failures()
        kf = known_findings(self.prop)
        unlisted = []
        matched = {}
        for o in fails:
            hit = None
            for k in kf:
                if o["name"].startswith(k["obligation"]) and o["status"] == "refuted":
                    hit = k
            if hit is None:
                unlisted.append(o)
            else:
                matched[hit["obligation"]] = hit
        for k in matched.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        print("%s: %d obligations, %d discharged, %d known findings, %.1fs (solver %.1fs)" % (
            self.prop, n, n - len(fails), len(matched), time.time() - self.t0, self.solver_time))
        if not unlisted:
            self.evidence(0)
            return 0
        for o in unlisted[:12]:
            print("  FAILED %s [%s] %s" % (o["name"], o["status"],
                                     o["detail"].split(" JSON:")[0][:400].replace("\n", " ")))
        found = None
        if falsifier is not None:
            try:
                found = falsifier(self, unlisted)
            except Exception as e:      # the falsifier only adds evidence; its own failure is reported, not fatal
                print("  falsifier error: %r" % (e,))
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, failed_obligations=unlisted[:50],
                           failing_input=found,
                           note=None if found else "no failing input found; the failed obligations and the "
                                                   "verifier's output are listed above"), f, indent=1, default=str)
        self.notes["failing_input_found"] = bool(found)
        self.evidence(len(unlisted))
        if found:
            print("  replayed on the real code: %s" % str(found.get("what"))[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, path))
        return 1


def model_str(m):
    out = []
    for d in list(m.decls())[:60]:
        try:
            out.append("%s=%s" % (d.name(), m[d]))
        except Exception:
            pass
    return ", ".join(out)[:1500]


def cvc5_check(solver, timeout_ms):
    """Second back end: re-check the same assertions with cvc5 through SMT-LIB."""
    try:
        import cvc5
        text = solver.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "q")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(slv, sm)).strip()
            if out in ("sat", "unsat", "unknown"):
                res = out
        return res
    except Exception as e:
        return "error %s" % type(e).__name__


def run_replay(script, args, timeout=300, stdin=None):
    """Run a falsifier/replay script of /verif/replay on the real code with the repository's interpreter."""
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=os.path.join(REPO, "transcoder"), VERIF_REPO=REPO, VERIF_SEED=str(SEED))
    cmd = [PYPY, "-W", "ignore", os.path.join(VERIF, "replay", script)] + [str(a) for a in args]
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=timeout, input=stdin)
    for line in r.stdout.split("\n"):
        if line.startswith("FAIL "):
            d = json.loads(line[5:])
            d["command"] = " ".join(cmd)
            return d
    if r.returncode not in (0,):
        print("  replay script %s exited %d: %s" % (script, r.returncode, (r.stderr or r.stdout)[-400:]))
    return None


def execute(prop, tier, body, falsifier=None):
    """Run body(check); engine failures become undecided obligations, never silent successes."""
    import traceback
    chk = Check(prop, tier)
    try:
        body(chk)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        chk.undecided("engine:%s" % type(e).__name__, "%s\n%s" % (e, tb[-1500:]))
    return chk.finish(falsifier)
