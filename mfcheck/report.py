"""Collects obligations of one property, applies the known-findings file, writes evidence, sets the exit code."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.txt")


def known_keys(prop):
    """keys of the listed (unrepaired) findings; 'fixed:' entries suppress nothing"""
    out = []
    try:
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].split("|")
                head = parts[0].strip()
                if head == f"property={prop}" and len(parts) >= 3:
                    out.append((parts[1].strip(), parts[2].strip()))
    except FileNotFoundError:
        pass
    return out


class Report:
    def __init__(self, prop, tier, method):
        self.prop = prop
        self.tier = tier
        self.method = method
        self.t0 = time.time()
        self.obs = {}          # (rule, construct) -> [status, where, msg, trail, count]
        self.stats = {"functions": set(), "call_sites": 0, "abstract_steps": 0, "outcomes": 0, "loops": 0}
        self.notes = []
        self.assumptions = []
        self.prec = {"violated": 3, "undecided": 2, "bounded": 1.5, "proved": 1}

    def ob(self, rule, status, where, msg="", trail=()):
        """one obligation instance.  status True/False/None or proved/violated/undecided"""
        status = {True: "proved", False: "violated", None: "undecided"}.get(status, status)
        key = (rule, where)
        o = self.obs.get(key)
        if o is None:
            self.obs[key] = [status, where, msg, trail, 1]
            return
        o[4] += 1
        if self.prec[status] > self.prec[o[0]]:
            self.obs[key] = [status, where, msg, trail, o[4]]

    def downgrade(self, frm, to):
        for o in self.obs.values():
            if o[0] == frm:
                o[0] = to

    def use(self, I):
        self.stats["functions"] |= I.funcs_seen
        self.stats["call_sites"] += I.calls_seen
        self.stats["abstract_steps"] += I.steps
        self.stats["loops"] += I.loops
        for m in sorted(set(I.imprecise))[:5]:
            if len(self.notes) < 30 and m not in self.notes:
                self.notes.append(m)

    def note(self, m):
        if len(self.notes) < 40 and m not in self.notes:
            self.notes.append(m)

    def status(self, rule=None):
        return [o[0] for (r, _), o in self.obs.items() if rule is None or r == rule]

    def finish(self):
        known = known_keys(self.prop)
        viol, listed = [], []
        for (rule, where), o in sorted(self.obs.items(), key=lambda t: str(t[0])):
            if o[0] != "violated":
                continue
            hit = [k for k in known if k[0] == rule and k[1] in where]
            (listed if hit else viol).append((rule, where, o))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        n = len(self.obs)
        cnt = {s: sum(1 for o in self.obs.values() if o[0] == s) for s in ("proved", "bounded", "undecided", "violated")}
        rules = {}
        for (rule, where), o in self.obs.items():
            r = rules.setdefault(rule, {"proved": 0, "bounded": 0, "undecided": 0, "violated": 0, "instances": 0})
            r[o[0]] += 1
            r["instances"] += o[4]
        sample = []
        for (rule, where), o in list(sorted(self.obs.items(), key=lambda t: (-self.prec[t[1][0]], str(t[0]))))[:25]:
            sample.append({"rule": rule, "status": o[0], "at": where, "detail": str(o[2])[:400], "paths": o[4]})
        cov = {
            "explanation": self.method,
            "obligations": n, "discharged": cnt["proved"], "held_on_all_bounded_paths": cnt["bounded"], "undecided": cnt["undecided"],
            "rules": rules,
            "functions_analysed": sorted(self.stats["functions"])[:120],
            "function_count": len(self.stats["functions"]),
            "calls_interpreted": self.stats["call_sites"], "abstract_steps": self.stats["abstract_steps"],
            "loop_heads_solved": self.stats["loops"], "abstract_outcomes": self.stats["outcomes"],
            "samples": sample, "imprecision": self.notes[:30],
        }
        data = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
                "level": "other", "coverage": cov, "assumptions": self.assumptions,
                "wall_s": round(time.time() - self.t0, 3), "violations": len(viol)}
        with open(os.path.join(ev, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(data, f, indent=1, default=str)
        for rule, where, o in listed:
            print(f"KNOWN-FINDING: property={self.prop} {rule} at {where}: {str(o[2])[:300]}")
        rp = os.path.join(ev, f"{self.prop}.violation.txt")
        if viol:
            with open(rp, "w", encoding="utf-8") as f:
                for rule, where, o in viol:
                    f.write(f"rule: {rule}\nconstruct: {where}\ndetail: {o[2]}\n")
                    for t in o[3] or ():
                        f.write(f"  via {t}\n")
                    f.write("\n")
            for rule, where, o in viol[:8]:
                print(f"  {rule} at {where}: {str(o[2])[:400]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print(f"{self.prop}: {n} obligations, {cnt['proved']} discharged, {cnt['bounded']} held within the unrolling bound, {cnt['undecided']} undecided, "
              f"{len(listed)} listed findings, {data['wall_s']} s")
        return 0


def where_func(loc):
    """function part of a location string 'file:line (qual)'"""
    return loc
