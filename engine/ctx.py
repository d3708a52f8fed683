"""Book-keeping of one check run: obligations, evidence, replay files, exit code."""
import os, sys, json, time, math
import smt
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Ctx:
    def __init__(self, prop, tier, seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obl = []            # (name, status, how)
        self.viol = []           # dicts
        self.known = []
        self.notes, self.assume = [], []
        self.fns = set(); self.bounds = {}
        self.witness = []        # vacuity witnesses
        self.samples = []; self.replays = 0
        self.env = None
        self.budget = 420 if tier == "quick" else 840
        self.steps = 0; self.npaths = 0
    def thorough(self): return self.tier == "thorough"
    def left(self): return self.budget - (time.time() - self.t0)
    def used(self, ex):
        for f in ex.encoded:
            if not f.startswith("@"): self.fns.add(f)
        self.steps += ex.steps
    def ok(self, name, how="unsat"): self.obl.append((name, "holds", how))
    def open(self, name, why): self.obl.append((name, "undecided", why)); print("UNDECIDED %s: %s" % (name, why))
    def bad(self, name, inp, got, want, key=None):
        """A violation already confirmed against the native code."""
        key = key or name
        self.obl.append((name, "violated", "replayed natively"))
        for p, k in known(self.prop):
            if k == key:
                self.known.append(key); print("KNOWN-FINDING: property=%s %s" % (self.prop, key)); return
        self.viol.append(dict(property=self.prop, obligation=name, key=key, input=inp, got=got, expected=want))
    def finish(self):
        d = os.path.join(ROOT, "replay"); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, self.prop + ".json")
        if self.viol:
            with open(rp, "w") as f: json.dump(self.viol, f, indent=1, default=js)
        S = smt.STATS
        st = {}
        for n, s, h in self.obl: st[s] = st.get(s, 0) + 1
        cov = dict(
            explanation="Bounded symbolic execution of the crate's own compiled functions (LLVM IR regenerated from /repo on this run); each obligation below was put to z3 over all input values within the bounds, counterexamples are replayed against the compiled crate.",
            obligations=len(self.obl), discharged=st.get("holds", 0), undecided=st.get("undecided", 0),
            obligation_list=[dict(name=n, status=s, how=h) for n, s, h in self.obl][:400],
            functions_encoded=sorted(self.fns), instructions_executed_symbolically=self.steps, bounds=self.bounds,
            queries=S.n, query_kinds=S.kinds, query_results=S.res, solver_seconds=round(S.t, 3),
            vacuity_witnesses=self.witness, native_replays=(self.env.native.calls if self.env else 0), samples=self.samples[:5], notes=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="other", coverage=cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=js)
        os.replace(p + ".tmp", p)
        for v in self.viol[:5]:
            print("  %s: input %s\n    got %s\n    expected %s" % (v["obligation"], str(v["input"])[:600], str(v["got"])[:300], str(v["expected"])[:300]))
        print("%s %s: %d obligations, %d hold, %d undecided, %d violated; %d queries, %.2f s solver, %.1f s" %
              (self.prop, self.tier, len(self.obl), st.get("holds", 0), st.get("undecided", 0), len(self.viol), S.n, S.t, time.time() - self.t0))
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, rp)); return 1
        return 0
def js(x):
    try: return x.item()
    except AttributeError: pass
    if isinstance(x, bytes): return x.decode("latin1")
    return str(x)
_known = None
def known(prop):
    global _known
    if _known is None:
        _known = []
        p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p):
                if l.startswith("finding: property="):
                    a = l[len("finding: property="):].strip().split(" ", 1)
                    _known.append((a[0], a[1]))
    return [x for x in _known if x[0] == prop]
