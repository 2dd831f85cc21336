"""Check framework: obligations, verdicts, evidence, known findings."""
import json
import os
import sys
import time
import traceback

from .terms import *
from .src import Source
from . import rand

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.jsonl")


class Undecided(Exception):
    pass


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.src = Source()
        self.obs = []
        self.funcs = set()
        self.steps = 0
        self.t0 = time.time()
        self.nval = 10 if tier == "quick" else 120
        self.assumptions = []
        self.valuations = 0
        self.deadline = self.t0 + (600 if tier == "quick" else 3000)

        self.shard, self.turn = (0, 1), 0

    # ------------------------------------------------------------ sharing the work
    def part(self):
        """is the next unit of work this worker's?"""
        self.turn += 1
        return self.turn % self.shard[1] == self.shard[0]

    def export(self):
        return dict(obs=self.obs, funcs=self.funcs, steps=self.steps, valuations=self.valuations, assumptions=self.assumptions)

    def absorb(self, d):
        self.obs += d["obs"]
        self.funcs |= d["funcs"]
        self.steps += d["steps"]
        self.valuations += d["valuations"]
        self.assumptions += [a for a in d["assumptions"] if a not in self.assumptions]

    # ------------------------------------------------------------ recording
    def ob(self, rule, construct, status, detail="", case=""):
        assert status in ("proved", "agrees", "violated", "undecided")
        self.obs.append((rule, construct, status, str(detail)[:2000], case))

    def ok(self, rule, construct, detail="", case=""):
        self.ob(rule, construct, "proved", detail, case)

    def bad(self, rule, construct, detail, case=""):
        self.ob(rule, construct, "violated", detail, case)

    def undecided(self, rule, construct, detail="", case=""):
        self.ob(rule, construct, "undecided", detail, case)

    def truth(self, rule, construct, ok, detail="", case=""):
        self.ob(rule, construct, "undecided" if ok is None else "proved" if ok else "violated", detail, case)

    def note(self, ip):
        for f in getattr(ip, "visited", ()):
            self.funcs.add(getattr(f, "qual", str(f)))
        self.steps += ip.steps

    # ------------------------------------------------------------ deciding
    def same(self, rule, construct, actual, expected, facts=(), case="", presets=None, ufuncs=None, sizes=(0, 2), rewrite=None, differ=None, n=None):
        """actual and expected abstract values denote the same function of the inputs"""
        if actual is None:
            self.undecided(rule, construct, "no value on any path", case)
            return None
        try:
            if rewrite:
                actual, expected = rewrite(actual), rewrite(expected)
            if actual is expected and not actual.unk:
                self.ok(rule, construct, "equal normal forms", case)
                return True
            if differ is None and not actual.unk:
                c = None
                try:
                    c = normal_equal(actual, expected)
                except Exception:
                    c = None
                if c:
                    self.ok(rule, construct, "equal normal forms", case)
                    return True
            note = {}
            w, good = rand.distinguish(actual, expected, facts, presets, ufuncs, n or self.nval, self.seed, sizes, note=note, differ=differ)
            self.valuations += good
            if w:
                self.bad(rule, construct, w, case)
                return False
            if good >= 3:
                self.ob(rule, construct, "agrees", f"no distinguishing valuation among {good}", case)
                return True
            self.undecided(rule, construct, f"value not understood: {sorted(note.items(), key=lambda x: -x[1])[:3]}", case)
            return None
        except RecursionError:
            self.undecided(rule, construct, "term too deep", case)
            return None

    # ------------------------------------------------------------ report
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l:
                    out.append(json.loads(l))
        return [k for k in out if k.get("property") == self.pid and not k.get("fixed")]

    def finish(self):
        known = self.known()
        viol, hit = [], []
        for o in self.obs:
            if o[2] != "violated":
                continue
            k = next((k for k in known if k["rule"] == o[0] and k["construct"] == o[1] and (k.get("case") in (None, o[4])) and (k.get("match", "") in o[3])), None)
            if k is not None:
                if k not in hit:
                    hit.append(k)
            else:
                viol.append(o)
        counts = {}
        for o in self.obs:
            counts[o[2]] = counts.get(o[2], 0) + 1
        decided = counts.get("proved", 0) + counts.get("agrees", 0) + counts.get("violated", 0)
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o[0], {})
            r[o[2]] = r.get(o[2], 0) + 1
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source (abstract interpretation to term normal forms, effect/alias/dispatch-table analyses; nothing of the repository is executed). "
                               "Each obligation compares what the code computes with the rule's specification; 'proved' = decided by the analysis, 'agrees' = no distinguishing "
                               "valuation of the two terms found, 'undecided' = outside what the analysis understands (not counted as held).",
                "obligations": len(self.obs), "discharged": counts.get("proved", 0), "agreeing": counts.get("agrees", 0),
                "undecided": counts.get("undecided", 0), "violated": counts.get("violated", 0),
                "term_valuations": self.valuations,
                "rules": rules,
                "functions_analysed": sorted(self.funcs), "abstract_steps": self.steps,
                "source_digest": self.src.digest(), "modules": len(self.src.mods),
                "samples": [{"rule": o[0], "construct": o[1], "case": o[4], "status": o[2], "detail": o[3][:200]} for o in self.obs[:: max(1, len(self.obs) // 8)]][:12],
                "undecided_items": [{"rule": o[0], "construct": o[1], "case": o[4], "why": o[3][:200]} for o in self.obs if o[2] == "undecided"][:40],
                "exhaustive": False,
            },
            "assumptions": self.assumptions or ["numpy/scipy/sympy/pyvista calls behave as summarised in sa/models.py", "real arithmetic (rounding not modelled)"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in hit:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if viol:
            path = os.path.join(HERE, "evidence", self.pid + ".violation.txt")
            seen = set()
            with open(path, "w") as f:
                for o in viol:
                    f.write(f"property {self.pid}\nrule {o[0]}\nconstruct {o[1]}\ncase {o[4]}\nwhy {o[3]}\n\n")
            for o in viol:
                if (o[0], o[1]) in seen or len(seen) > 12:
                    continue
                seen.add((o[0], o[1]))
                print(f"  {o[0]} :: {o[1]} [{o[4]}] :: {o[3][:400]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid}: {len(self.obs)} obligations, {counts.get('proved', 0)} proved, {counts.get('agrees', 0)} agree, {counts.get('undecided', 0)} undecided, "
              f"{len(hit)} known findings, {round(time.time() - self.t0, 1)}s")
        if decided == 0:
            print("no obligation could be decided")
            return 2
        return 0


def normal_equal(a, b):
    return bool(compare(a, b, limit=300))


def anchor(fi, src=None):
    return f"{fi.file}:{fi.qual}" if fi is not None else "?"


def where(src, cls, name):
    c = src.cls(cls) if isinstance(cls, str) else cls
    f = src.find_method(c, name) if c else None
    return f"{f.file}:{f.qual}" if f is not None else f"{cls}.{name}"
