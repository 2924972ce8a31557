"""Obligations, known findings, evidence files and exit codes."""
import hashlib
import json
import os
import sys
import time
import traceback

from .interp import Budget, Dead
from .query import Unknown, AnchorLost

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


class Report:
    def __init__(self, pid, tier, root):
        self.pid, self.tier, self.root = pid, tier, root
        self.thorough = tier == "thorough"
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.viol = {}
        self.rules = {}
        self.samples = {}
        self.constructs = set()
        self.funcs = set()
        self.files = set()
        self.steps = 0
        self.unmodelled = {}
        self.notes = []
        self.facts = []
        self.t0 = time.time()
        self.floor = 1
        self.explanation = ""
        self.assumptions = []

    # -- recording
    def note(self, text):
        """Something that was not subject to the rules (shown in the evidence)."""
        if len(self.notes) < 40:
            self.notes.append(text)

    def fact(self, f):
        """A finding of a sweep that is judged only when all of them are there."""
        self.facts.append(f)

    def ok(self, rule, construct, sample=None):
        self.obligations += 1
        self.discharged += 1
        r = self.rules.setdefault(rule, [0, 0, 0])
        r[0] += 1
        self.constructs.add(construct)
        if rule not in self.samples:
            self.samples[rule] = sample or construct

    def bad(self, rule, construct, detail, where=""):
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0, 0])
        r[1] += 1
        self.constructs.add(construct)
        self.viol.setdefault((rule, construct), (detail, where))

    def ob(self, cond, rule, construct, detail="", where=""):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail() if callable(detail) else detail, where)

    def unknown(self, rule, construct, why=""):
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0, 0])
        r[2] += 1
        self.undecided.append((rule, construct, str(why)[:200]))

    def guard(self, rule, construct, fn, dead="every path raises", sess=None):
        """Run fn() which records obligations; an always-raising analysis result is a violation."""
        try:
            return fn()
        except Dead:
            why = ""
            if sess is not None and sess.it.uncaught:
                why = f": {sess.it.uncaught[-1]!r}"
            if dead is None:
                self.unknown(rule, construct, "dead" + why)
            else:
                self.bad(rule, construct, (dead + why)[:600])
        except (Unknown, Budget, ZeroDivisionError) as e:
            self.unknown(rule, construct, repr(e))
        except RecursionError:
            self.unknown(rule, construct, "recursion")

    def absorb(self, sess):
        it = sess.it
        self.funcs |= it.funcs_seen
        self.files |= set(it.modules)
        self.steps += it.steps
        for k, v in it.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v

    def merge(self, o):
        """Merge the plain-data export of another report."""
        self.obligations += o["obligations"]
        self.discharged += o["discharged"]
        self.undecided += o["undecided"]
        for k, v in o["viol"]:
            self.viol.setdefault(tuple(k), tuple(v))
        for k, v in o["rules"].items():
            r = self.rules.setdefault(k, [0, 0, 0])
            for i in range(3):
                r[i] += v[i]
        for k, v in o["samples"].items():
            self.samples.setdefault(k, v)
        self.constructs |= set(o["constructs"])
        self.funcs |= set(o["funcs"])
        self.files |= set(o["files"])
        self.steps += o["steps"]
        for k, v in o["unmodelled"].items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        self.facts += o.get("facts", ())
        for n in o.get("notes", ()):
            self.note(n)

    def export(self):
        return dict(obligations=self.obligations, discharged=self.discharged, undecided=self.undecided,
                    viol=[(k, v) for k, v in self.viol.items()], rules=self.rules, samples=self.samples,
                    constructs=sorted(self.constructs), funcs=sorted(self.funcs), files=sorted(self.files),
                    steps=self.steps, unmodelled=self.unmodelled, notes=self.notes, facts=self.facts)

    # -- finishing
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = {(k["rule"], k["construct"]): k for k in known_findings()
                 if k["property"] == self.pid and k.get("status", "known") == "known"}
        new = []
        for (rule, construct), (detail, where) in sorted(self.viol.items()):
            k = known.get((rule, construct))
            if k is not None:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
            else:
                new.append((rule, construct, detail, where))
        srcs = {}
        for m in sorted(self.files):
            p = os.path.join(self.root, *m.split("."))
            p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
            if os.path.exists(p):
                with open(p, "rb") as f:
                    srcs[os.path.relpath(p, self.root)] = hashlib.sha256(f.read()).hexdigest()[:12]
        cov = {
            "explanation": self.explanation or "static obligations decided on the current source",
            "obligations": self.obligations,
            "discharged": self.discharged,
            "undecided": len(self.undecided),
            "undecided_items": [" | ".join(u) for u in self.undecided[:60]],
            "rules": {k: {"holds": v[0], "broken": v[1], "undecided": v[2]} for k, v in sorted(self.rules.items())},
            "notes": self.notes,
            "constructs_analysed": len(self.constructs),
            "samples": [f"{k}: {v}" for k, v in sorted(self.samples.items())][:40],
            "functions_interpreted": len(self.funcs),
            "abstract_steps": self.steps,
            "source_files": len(srcs),
            "source_digest": hashlib.sha256(json.dumps(srcs, sort_keys=True).encode()).hexdigest()[:16],
            "unmodelled_constructs": self.unmodelled,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print(f"{self.pid}: {self.obligations} obligations, {self.discharged} hold, {len(self.viol)} broken "
              f"({len(new)} new), {len(self.undecided)} undecided, {len(self.funcs)} functions, {ev['wall_s']}s")
        for u in self.undecided[:8]:
            print("  undecided:", " | ".join(u))
        if self.discharged < self.floor and not new:
            print(f"ANALYSIS-BROKEN: only {self.discharged} obligations decided, expected at least {self.floor}")
            return 2
        for i, (rule, construct, detail, where) in enumerate(new):
            path = os.path.join(VERIF, "evidence", f"{self.pid}.violation{i}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "rule": rule, "construct": construct, "detail": detail,
                           "where": where, "replay": f"python3 run.py {self.pid}"}, f, indent=1)
            print(f"  {rule}: {construct}: {detail} {where}"[:1500])
            print(f"VIOLATION property={self.pid} replay={path}")
            if i >= 20:
                break
        return 1 if new else 0


def main(argv):
    import importlib
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    root = os.environ.get("SA_ROOT", "/repo")
    sys.setrecursionlimit(20000)
    R = Report(pid, tier, root)
    d = os.path.join(VERIF, "evidence")
    for f in os.listdir(d) if os.path.isdir(d) else ():
        if f.startswith(pid + ".violation"):
            os.remove(os.path.join(d, f))
    mod = importlib.import_module("checks." + pid.lower())
    try:
        mod.run(R)
    except AnchorLost as e:
        print(f"ANALYSIS-BROKEN: anchor not found: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        if not R.viol:
            return 2
    return R.finish()


def parallel(R, fn, items, workers=8):
    """Run fn(sub_report, item) for items in worker processes; merge."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    if len(items) <= 1 or os.environ.get("SA_SERIAL"):
        for i in items:
            try:
                fn(R, i)
            except AnchorLost:
                raise
            except Exception as e:
                traceback.print_exc()
                R.unknown("internal", repr(i)[:100], repr(e))
        return
    with ctx.Pool(min(workers, len(items)), maxtasksperchild=None) as pool:
        for out in pool.imap_unordered(_task, [(fn, R.pid, R.tier, R.root, i) for i in items]):
            if "error" in out:
                if out.get("anchor"):
                    raise AnchorLost(out["error"])
                print(out["error"], file=sys.stderr)
                R.unknown("internal", str(out.get("item"))[:100], out["error"].strip().splitlines()[-1])
                continue
            R.merge(out)


def _task(a):
    fn, pid, tier, root, item = a
    sys.setrecursionlimit(20000)
    r = Report(pid, tier, root)
    try:
        fn(r, item)
    except AnchorLost as e:
        return {"error": str(e), "anchor": True}
    except Exception:
        return {"error": traceback.format_exc(), "item": repr(item)}
    return r.export()
