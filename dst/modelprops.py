"""C09-C15: properties decided by comparing a simulated deployment with the reference model."""
import collections
import json
import os

from . import deploy, docs, faults, iso, pool, shapes, traffic
from .isoprops import _hash

BASE_STUBS = ["clients, network, application, store and clock of the deployment (dst/deploy.py)",
              "user-supplied parsers/dumpers of the Device resource type"]


class ModelProp:
    level = "exploration"
    kinds = ()
    mix = ()
    profile = {}
    events = (12, 30)
    tables = float(os.environ.get("DST_TABLES", 0.4))
    per_block = 20
    nblocks = {"quick": 150, "thorough": 4000}
    stubs = BASE_STUBS
    rule = ("a run is one history of 12-30 messages (with their losses, duplicates, delays, damage, crashes, clock jumps and "
            "wrong answers of the application) through 1-3 gateway nodes, followed by reading every resource once more (the nodes take turns); "
            "non-trivial: at least one message was judged by the model; distinct: hash of message kinds, fates and verdicts")
    assumptions = ["the reference model dst/model.py states the intended behaviour for the messages it judges; messages it "
                   "does not judge (counted as 'judged skip') are only required not to raise"]

    @staticmethod
    def setup():
        pool.zygote(locks=False)

    def blocks(self, tier):
        return self.nblocks[tier]

    def scenario(self, r):
        tab = shapes.draw(r) if r.random() < self.tables else None
        cfg = shapes.options(r) if r.random() < 0.4 else None
        with shapes.installed(tab, cfg):
            scn = self.history(r)
        if cfg:
            scn["config"] = cfg
        if tab:
            scn["table"] = tab
        return scn

    def history(self, r):
        n = r.randint(*self.events)
        p = dict(self.profile)
        for k in ("corrupt", "app", "crash", "dup", "lose", "delay"):
            if k in p and r.random() < 0.3:          # swarm: switch some faults off, or up
                p[k] = r.choice([0, p[k], min(1.0, 2 * p[k])])
        evs = []
        for m in self.seed_msgs(r):
            evs.append({"msg": traffic.message(r, m), "via": [{"node": 0}]})
        for _ in range(n):
            evs.append(traffic.event_of(r, p, traffic.message(r, r.choice(self.mix))))
        return {"nodes": r.choice([1, 1, 2, 3]), "events": evs}

    def seed_msgs(self, r):
        return ["POST"] * r.choice([1, 3, 6])

    def counts(self, e):
        return e.kind in ("stuck", "start") or bool(os.environ.get("DST_ALL")) or self.mine(e)

    def mine(self, e):
        return e.kind in self.kinds

    def judge(self, scn):
        def run():
            shapes.install(scn.get("table"), scn.get("config"))
            sim = deploy.Sim(scn)
            bad = None
            try:
                sim.run()
            except deploy.Broken as e:
                if self.counts(e):
                    bad = {"class": e.kind, "label": str(e.detail)[:200], "detail": e.detail, "op": e.op,
                           "got": e.got, "want": e.want}
                else:
                    sim.count("runs ended by a deviation of another property (%s)" % e.kind)
            return {"bad": bad, "stats": sim.stats, "log": sim.log,
                    "secs": (sim.clock - deploy.T0).total_seconds()}
        tag, out = pool.in_child(run)
        if tag != "ok":
            raise pool.ChildError("simulated deployment ended: %s" % tag)
        return out["bad"], out

    def block(self, seed, b, tier, over):
        st = collections.Counter()
        sigs, dig = [], []
        res = {"runs": 0, "violation": None, "sample": None}
        for i in range(self.per_block):
            if i and over():
                break
            r = iso.rng_of(self.id, seed, b, i)
            scn = self.scenario(r)
            bad, out = self.judge(scn)
            res["runs"] += 1
            for k, v in out["stats"].items():
                st[k] += v
            st["runs with a generated resource type"] += bool(scn.get("table"))
            st["runs with generated options"] += bool(scn.get("config"))
            st["simulated seconds (absolute)"] += int(abs(out["secs"]))
            sigs.append(_hash([[e["msg"]["m"], [sorted(d) for d in e["via"]]] for e in scn["events"]] + [out["log"], out["stats"]]))
            dig.append(_hash([scn, out]))
            if res["sample"] is None:
                res["sample"] = [{"m": e["msg"]["m"], "via": [sorted(d) for d in e["via"]]} for e in scn["events"][:6]]
            if bad:
                res.update(violation=bad, scenario=scn, run=[b, i])
                break
        res.update(stats=st, sigs=sigs, digest=_hash(dig))
        return res

    def shrink(self, scn):
        evs = scn["events"]
        n = len(evs)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(scn, events=evs[:i] + evs[i + size:])
            size //= 2
        if scn["nodes"] > 1:
            yield dict(scn, nodes=1)
        if scn.get("config"):
            yield {k: v for k, v in scn.items() if k != "config"}
        if scn.get("table"):
            yield {k: v for k, v in scn.items() if k != "table"}
            for t in shapes.smaller(scn["table"]):
                yield dict(scn, table=t)
        for i, ev in enumerate(evs):
            def put(e2):
                return dict(scn, events=evs[:i] + [e2] + evs[i + 1:])
            if ev.get("jump"):
                yield put({k: v for k, v in ev.items() if k != "jump"})
            if len(ev["via"]) > 1:
                for j in range(len(ev["via"])):
                    yield put(dict(ev, via=[ev["via"][j]]))
            for j, d in enumerate(ev["via"]):
                for k in ("delay", "crash", "app", "body", "query", "spots"):
                    if k in d:
                        d2 = {x: y for x, y in d.items() if x != k}
                        yield put(dict(ev, via=ev["via"][:j] + [d2] + ev["via"][j + 1:]))
                if "body" in d:
                    for b in smaller(d["body"]):
                        yield put(dict(ev, via=ev["via"][:j] + [dict(d, body=b)] + ev["via"][j + 1:]))
            msg = ev["msg"]
            for k in ("query", "headers", "loc", "quiet"):
                if msg.get(k) and msg["m"] not in ("LIST", "ROOT", "SEARCH"):
                    yield put(dict(ev, msg={x: y for x, y in msg.items() if x != k}))
            if msg["m"] in ("LIST", "ROOT", "SEARCH"):
                for k in list(msg["query"]):
                    q = {x: y for x, y in msg["query"].items() if x != k}
                    if k == "sortBy":
                        q.pop("sortOrder", None)
                    yield put(dict(ev, msg=dict(msg, query=q)))
            if "body" in msg:
                for b in smaller(msg["body"]):
                    yield put(dict(ev, msg=dict(msg, body=b)))


def smaller(v, pre=None):
    """Bodies with one part less."""
    if isinstance(v, dict):
        for k in list(v):
            yield {x: y for x, y in v.items() if x != k}
        for k in list(v):
            for s in smaller(v[k]):
                yield dict(v, **{k: s}) if isinstance(k, str) else v
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            for s in smaller(v[i]):
                yield v[:i] + [s] + v[i + 1:]


ANY = faults.PRESENCE + faults.CONTENT + faults.ENVELOPE + ["garble"]
LISTED = faults.LISTS + faults.TWINS + faults.PRESENCE + faults.CONTENT + ["garble"]


CALM = ["empty"]


class C09(ModelProp):
    id = "C09"
    kinds = ("raised", "half-accepted", "half-delivered")
    mix = ("POST", "PUT", "PATCH", "GET", "LIST", "ROOT", "SEARCH", "BULK", "DELETE", "PATCH", "BULK", "POST", "PUT")
    profile = {"corrupt": 0.6, "app": 0.6, "app_kinds": {
        "*": ["garble", "garble"] + ANY, "LIST": ["garble"] * 4 + LISTED, "ROOT": ["garble"] * 4 + LISTED,
        "SEARCH": ["garble"] * 4 + LISTED, "BULK": ["garble"] * 5 + faults.BULK}}


class C10(ModelProp):
    id = "C10"
    kinds = ("accepted", "refused", "content", "withheld", "altered", "raised", "half-accepted")
    mix = ("POST", "PUT", "POST", "PUT", "GET", "DELETE")
    profile = {"corrupt": 0.25, "crash": 0.05, "dup": 0.08}

    def seed_msgs(self, r):
        return ["POST"] * r.choice([0, 1, 3])


class C11(ModelProp):
    id = "C11"
    kinds = ("accepted", "refused", "content", "read-only", "withheld", "altered", "raised", "half-accepted")
    mix = ("PATCH", "PATCH", "PATCH", "PATCH", "PUT", "GET")
    profile = {"corrupt": 0.15, "crash": 0.05, "dup": 0.08}


class C12(ModelProp):
    id = "C12"
    kinds = ("leaked", "withheld", "selection", "refused", "accepted", "raised")
    mix = ("GET", "GET", "GET", "LIST", "ROOT", "SEARCH", "PUT", "POST", "PATCH", "BULK")
    profile = {"app": 0.6, "app_kinds": {"*": faults.PRESENCE, **{
        m: faults.PRESENCE + faults.TWINS for m in ("LIST", "ROOT", "SEARCH")}}}

    def mine(self, e):
        if e.kind == "leaked":
            return "presence" in (e.cat or "")
        return e.kind in self.kinds


class C13(ModelProp):
    id = "C13"
    kinds = ("leaked", "withheld", "altered", "raised", "half-delivered")
    mix = ("GET", "POST", "PUT", "PATCH", "DELETE", "LIST", "ROOT", "SEARCH", "BULK")
    profile = {"app": 0.65, "app_kinds": {
        "*": faults.CONTENT + faults.ENVELOPE * 2 + ["garble"], "LIST": LISTED, "ROOT": LISTED, "SEARCH": LISTED,
        "BULK": faults.BULK * 2 + faults.CONTENT}, "corrupt": 0.03}


class C14(ModelProp):
    id = "C14"
    kinds = ("selection", "match", "order", "leaked", "withheld", "altered", "refused", "accepted", "raised")
    mix = ("LIST", "LIST", "LIST", "ROOT", "SEARCH", "SEARCH", "POST", "PATCH")
    profile = {"app": 0.35, "app_kinds": {"*": faults.LISTS}}

    def seed_msgs(self, r):
        return ["POST"] * (r.choice([3, 5, 9]) if r.random() < 0.94 else r.choice([14, 25, 40]))

    def mine(self, e):
        return e.kind in self.kinds and e.where in ("LIST", "ROOT", "SEARCH", None)


class C15(ModelProp):
    id = "C15"
    kinds = ("accepted", "refused", "content", "leaked", "withheld", "altered", "raised", "half-accepted", "half-delivered")
    mix = ("BULK", "BULK", "BULK", "BULK", "POST", "GET")
    profile = {"corrupt": 0.2, "app": 0.4, "app_kinds": {"*": faults.BULK + faults.CONTENT}, "crash": 0.05}
    events = (6, 16)

    def mine(self, e):
        return e.kind in self.kinds and e.where == "BULK"


class C16(ModelProp):
    id = "C16"
    kinds = ("document", "accepted", "refused", "leaked", "withheld", "altered", "raised", "half-delivered", "selection")
    mix = ("SCHEMAS", "SCHEMAS", "TYPES", "CONFIG", "CONFIG", "POST", "PATCH", "LIST")
    profile = {"app": 0.6, "app_kinds": {"*": docs.KINDS, "POST": CALM, "PATCH": CALM, "LIST": CALM}, "crash": 0.06}
    events = (8, 20)
    nblocks = {"quick": 90, "thorough": 4000}

    def mine(self, e):
        return e.kind in self.kinds and e.where in docs.TABLES


class C17(ModelProp):
    id = "C17"
    kinds = ("report",)
    mix = ("POST", "PUT", "POST", "PUT", "PATCH", "GET", "GET", "LIST", "ROOT", "SEARCH", "BULK")
    profile = {"spots": 0.6, "app": 0.6, "app_kinds": {"*": ["spots"]}}
    events = (10, 24)
    nblocks = {"quick": 110, "thorough": 4000}


MODEL = {c.id: c for c in (C09, C10, C11, C12, C13, C14, C15, C16, C17)}
