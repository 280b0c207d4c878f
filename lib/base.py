"""Shared driver: runs a check over build configurations in parallel, matches the findings with the
known-findings file, writes the evidence file and prints the verdict."""
import os, sys, json, time, traceback
from concurrent.futures import ProcessPoolExecutor
import facts, ir
from facts import Broken, Config, VERIF

KNOWN = os.path.join(VERIF, "known-findings.json")


class Finding:
    """key identifies the construct independently of line numbers"""

    def __init__(self, key, msg, where, config="", path=None):
        self.key, self.msg, self.where, self.config, self.path = key, msg, where, config, path or []

    def tup(self):
        return (self.key, self.msg, self.where, self.config, self.path)


class Result:
    """What one configuration contributed (picklable)."""

    def __init__(self, config=""):
        self.config = config
        self.findings = []
        self.counts = {}
        self.samples = []
        self.sets = {}

    def add(self, key, msg, where, path=None):
        if not any(f[0] == key for f in self.findings):
            self.findings.append((key, msg, where, self.config, path or []))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)


def load(spec):
    cfg = Config(**spec)
    return ir.Unit(cfg, facts.extract(cfg))


def _job(a):
    fn, spec, args = a
    try:
        u = load(spec)
        r = Result(u.name)
        fn(u, r, *args)
        return ("ok", r)
    except Broken as e:
        return ("broken", "%s: %s" % (spec, e))
    except Exception:
        return ("broken", "%s: %s" % (spec, traceback.format_exc()))


def run_configs(fn, specs, args=(), jobs=8):
    facts.ensure_tool()
    # biggest jobs first would need sizes; order as given
    res = []
    if len(specs) == 1 or os.environ.get("VP_SERIAL"):
        out = [_job((fn, s, args)) for s in specs]
    else:
        with ProcessPoolExecutor(max_workers=jobs) as ex:
            out = list(ex.map(_job, [(fn, s, args) for s in specs]))
    for st, r in out:
        if st != "ok":
            raise Broken(r)
        res.append(r)
    return res


def specs(archs, modes=("dbg",), **kw):
    return [dict(arch=a, mode=m, **kw) for m in modes for a in archs]


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [x for x in d.get("findings", []) if x["property"] == pid]


def need(cond, what):
    if not cond:
        raise Broken(what)


class Check:
    def __init__(self, pid, level="other", assumptions=(), explanation=""):
        self.pid, self.level = pid, level
        self.assumptions, self.explanation = list(assumptions), explanation
        self.t0 = time.time()

    def finish(self, results, rule, floors=None, extra=None):
        counts, sets, samples = {}, {}, []
        fnd = {}
        for r in results:
            for k, v in r.counts.items():
                counts[k] = counts.get(k, 0) + v
            for k, v in r.sets.items():
                sets.setdefault(k, set()).update(v)
            for s in r.samples:
                if len(samples) < 12:
                    samples.append(s)
            for f in r.findings:
                fnd.setdefault(f[0], []).append(f)
        for k, m in (floors or {}).items():
            have = counts.get(k, len(sets.get(k, ())))
            # too little was analysed to say anything (an anchor of the rule disappeared)
            if have < m and not fnd:
                raise Broken("%s: only %d %s analysed, at least %d expected" % (self.pid, have, k, m))
        kn = {k["key"]: k for k in known(self.pid)}
        new = []
        for k, fs in sorted(fnd.items()):
            if k in kn:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kn[k]["what"]))
            else:
                new.append(fs)
        cov = {"explanation": self.explanation + " Rule: " + rule, "rule": rule,
               "counts": counts, "sets": {k: len(v) for k, v in sets.items()},
               "configurations": sorted({r.config for r in results if r.config}), "samples": samples}
        for k, v in sets.items():
            if len(v) <= 80:
                cov.setdefault("items", {})[k] = sorted(map(str, v))
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": tier(), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new),
              "known_findings": [k for k in fnd if k in kn]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if new:
            rp = os.path.join("evidence", self.pid + ".violations.txt")
            with open(os.path.join(VERIF, rp), "w") as f:
                for fs in new:
                    f.write("[%s] %s\n" % (fs[0][0], fs[0][1]))
                    for x in fs[:6]:
                        f.write("    at %s (configuration %s)\n" % (x[2], x[3]))
                        for p in x[4][:12]:
                            f.write("        %s\n" % p)
            for fs in new[:25]:
                print("%s: %s (%s) [%s]" % (fs[0][2], fs[0][1], ", ".join(x[3] for x in fs[:4]) + (" .." if len(fs) > 4 else ""), fs[0][0]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: held; %s" % (self.pid, ", ".join("%s=%s" % kv for kv in sorted(counts.items()))))
        return 0
