"""C08: replicas of a deployment agree."""
import collections
import hashlib
import json

from . import iso, regprops, replica, seam
from .isoprops import _hash, brief

PLAIN = {"hashseed": 0, "tz": "UTC", "locale": "C.UTF-8", "utf8": 1, "cwd": "/", "clock": seam.T0,
         "entropy": 0, "tick": 1000000, "gc": "normal", "order": None, "keep": True}
ZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<+1245>-12:45<+1345>,M9.5.0,M4.1.0/3",
         "<-12>12", "<+14>-14", "CET-1CEST,M3.5.0,M10.5.0/3", "<-0330>3:30"]


def other(r):
    return {"hashseed": r.randrange(1, 1 << 31), "tz": r.choice(ZONES),
            "locale": r.choice(["C", "POSIX", "C.UTF-8"]), "utf8": r.choice([0, 1]),
            "cwd": r.choice(["/", "/tmp"]), "clock": seam.instant(r),
            "entropy": r.randrange(1, 1 << 40), "tick": r.choice([0, 1000000, 10 ** 9, 3600 * 10 ** 9]),
            "gc": r.choice(["normal", "off", "eager"]), "order": r.randrange(1 << 30),
            "keep": r.random() < 0.5}


class C08:
    id = "C08"
    level = "exploration"
    rule = ("a run is one script of 60-140 operations (often followed by the construction, extension and use of 2-8 more schemas) given to a plain replica and to 2-3 replicas, each a "
            "separately started process with its own hash seed, time zone, locale, clock (start, rate, jumps "
            "in both directions), entropy, import order, garbage-collection mode and habit of keeping parsed filters; "
            "non-trivial: always (every replica differs in at least the hash seed); distinct: hash of script and environments")
    stubs = ["wall clock and getrandom (interposed libc)", "user-supplied parsers/dumpers of the Device resource type"]
    assumptions = ["CPython 3.12 on one host: byte order, platform and interpreter version are not varied"]
    ops_range = (60, 140)

    @staticmethod
    def setup():
        from . import world
        world.load()

    def blocks(self, tier):
        return {"quick": 180, "thorough": 4000}[tier]

    def scenario(self, r):
        n = r.randint(*self.ops_range)
        ops_ = []
        while len(ops_) < n:
            ops_ += iso.corpus(r, 10, r.choice([0.1, 0.4]))
        ops_ = ops_[:n]
        if r.random() < 0.6:                     # schemas the application builds, with several extensions
            for _ in range(r.choice([1, 2])):
                evs = []
                for ev in regprops.C07().scenario(r)["events"]:
                    evs += [e for lst in ev["threads"] for e in lst] if ev["ev"] == "together" else [ev]
                ops_ += evs
        return {"ops": ops_, "replicas": [other(r) for _ in range(r.choice([2, 3]))]}

    def judge(self, scn):
        got = replica.collect([replica.launch(e, scn["ops"]) for e in [PLAIN] + scn["replicas"]])
        obs = {"answers": [hashlib.sha1(json.dumps(g).encode()).hexdigest() for g in got]}
        for k, g in enumerate(got[1:]):
            if len(g) != len(got[0]):
                return {"class": "mismatch", "label": "replica %d" % (k + 1), "op": scn["replicas"][k],
                        "got": g[:1], "want": "a replica that starts",
                        "detail": "replicas could not be started alike"}, obs
            for i, (x, y) in enumerate(zip(got[0], g)):
                if x != y:
                    return {"class": "mismatch", "label": "operation %d on replica %d" % (i, k + 1),
                            "op": scn["ops"][i], "got": y, "want": x,
                            "detail": "replicas disagree; environment %s" % json.dumps(scn["replicas"][k])}, obs
        return None, obs

    def block(self, seed, b, tier, over):
        r = iso.rng_of(self.id, seed, b)
        scn = self.scenario(r)
        bad, obs = self.judge(scn)
        st = collections.Counter()
        st["operations"] = len(scn["ops"])
        st["registrations and probes"] = sum("ev" in o for o in scn["ops"])
        st["operations answered by several replicas"] = len(scn["ops"]) * (1 + len(scn["replicas"]))
        for e in scn["replicas"]:
            st["fault clock elsewhere"] += 1
            st["fault other hash seed"] += 1
            st["fault other time zone"] += e["tz"] != "UTC"
            st["fault other locale"] += e["locale"] != "C.UTF-8"
            st["fault permuted imports"] += 1
            st["fault gc " + e["gc"]] += e["gc"] != "normal"
        out = {"runs": 1, "stats": st, "sigs": [_hash(scn)], "violation": bad,
               "digest": _hash([scn, obs]),
               "sample": {"replicas": scn["replicas"][:1], "ops": [brief(o) for o in scn["ops"][:6]]}}
        if bad:
            out.update(scenario=scn, run=[b, 0])
        return out

    def shrink(self, scn):
        for i in range(len(scn["replicas"])):
            if len(scn["replicas"]) > 1:
                yield dict(scn, replicas=scn["replicas"][:i] + scn["replicas"][i + 1:])
        for c in iso.shrink_lists(scn, ("ops",)):
            if c["ops"]:
                yield c
        if len(scn["replicas"]) == 1:
            e = scn["replicas"][0]
            for k in PLAIN:
                if e[k] != PLAIN[k]:
                    yield dict(scn, replicas=[dict(e, **{k: PLAIN[k]})])
        for i, o in enumerate(scn["ops"]):
            if "ev" in o:
                continue
            for o2 in iso.shrink_op(o):
                yield dict(scn, ops=scn["ops"][:i] + [o2] + scn["ops"][i + 1:])


REP = {"C08": C08}
