"""Obligations, findings, evidence."""
import json, os, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

class Ctx:
    def __init__(self, prop, prog, tier, seed):
        self.prop, self.prog, self.tier, self.seed = prop, prog, tier, seed
        self.t0 = time.time()
        self.rules = {}          # rule -> {"text":..., "checked": n, "violations": n}
        self.samples = {}
        self.viol = []           # dicts
        self.unresolved = []
        self.counts = {}
        self.errors = []

    def where(self, loc):
        """the line of the source file (normalised modules carry a line map)"""
        rel, _, line = str(loc).rpartition(":")
        m = self.__dict__.setdefault("_rel", {m.rel: m for m in self.prog.modules.values()}).get(rel)
        return "%s:%d" % (rel, m.linemap.get(int(line), int(line))) if m is not None and m.linemap and line.isdigit() else loc

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"text": text, "checked": 0, "violations": 0, "minimum": 0})
        return rid
    def need(self, rid, n): self.rules[rid]["minimum"] = n
    def ok(self, rid, where, what=""):
        self.rules[rid]["checked"] += 1
        s = self.samples.setdefault(rid, [])
        if len(s) < 6: s.append(("%s %s" % (self.where(where), what)).strip()[:240])
    def bad(self, rid, loc, func, msg, key, path=()):
        """key: stable identification of the construct (no line numbers)"""
        self.rules[rid]["checked"] += 1
        self.rules[rid]["violations"] += 1
        k = "%s:%s" % (rid, key)
        if any(v["key"] == k for v in self.viol): return
        self.viol.append({"rule": rid, "loc": self.where(loc), "function": func, "message": msg, "key": k, "path": list(path)[:60]})
    def decide(self, cond, rid, loc, func, msg, key, what="", path=()):
        if cond: self.ok(rid, loc, what or func)
        else: self.bad(rid, loc, func, msg, key, path)
        return cond
    def unres(self, rid, what):
        t = ("%s: %s" % (rid, what))[:300]
        if t not in self.unresolved: self.unresolved.append(t)
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def section(self, fn, *a):
        try: return fn(*a)
        except Exception:
            self.errors.append("%s: %s" % (getattr(fn, "__name__", "?"), traceback.format_exc(limit=-4)))
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()

def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = l[7:]
                parts = dict(x.split("=", 1) for x in d.split(" ", 2)[:2])
                out.append((parts["property"], parts["key"], d.split(" ", 2)[2] if d.count(" ") >= 2 else ""))
    return out

def finish(ctx, technique, explanation):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    kf = {k: d for p, k, d in known_findings() if p == ctx.prop}
    fresh = [v for v in ctx.viol if v["key"] not in kf]
    for v in ctx.viol:
        if v["key"] in kf: print("KNOWN-FINDING: property=%s %s" % (ctx.prop, kf[v["key"]] or v["message"]))
    for rid, r in ctx.rules.items():
        if r["checked"] < r["minimum"]:
            ctx.unresolved.append("%s: only %d instances found, at least %d expected" % (rid, r["checked"], r["minimum"]))
    cov = {"explanation": explanation,
           "analysed": {"modules": len(ctx.prog.modules), "functions": len(ctx.prog.funcs), "classes": len(ctx.prog.classes),
                        "source_digest": ctx.prog.digest},
           "rules": [{"id": k, "rule": r["text"], "instances_checked": r["checked"], "violations": r["violations"]} for k, r in ctx.rules.items()],
           "obligations": sum(r["checked"] for r in ctx.rules.values()),
           "discharged": sum(r["checked"] - r["violations"] for r in ctx.rules.values()),
           "counts": ctx.counts,
           "samples": [{"rule": k, "instances": v} for k, v in ctx.samples.items()],
           "unresolved": ctx.unresolved, "rule_errors": ctx.errors,
           "violations": ctx.viol}
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - ctx.t0, 3)}
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    strict = os.environ.get("VERIF_DEBUG")
    if strict:
        for u in ctx.unresolved: print("UNRESOLVED", u)
        for u in ctx.errors: print("ERROR", u)
        for k, r in ctx.rules.items(): print("  rule %s checked %d violations %d" % (k, r["checked"], r["violations"]))
    if fresh:
        rp = os.path.join(VERIF, "out", ctx.prop + ".txt")
        with open(rp, "w") as f:
            for v in fresh:
                f.write("property %s\nrule %s: %s\nat %s in %s\n%s\nkey %s\n" % (ctx.prop, v["rule"], ctx.rules[v["rule"]]["text"], v["loc"], v["function"], v["message"], v["key"]))
                for p in v["path"]: f.write("    %s\n" % (p,))
                f.write("\n")
        for v in fresh: print("%s %s: %s [%s]" % (v["loc"], v["function"], v["message"], v["rule"]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        return 1
    print("OK property=%s obligations=%d" % (ctx.prop, cov["obligations"]))
    return 0
