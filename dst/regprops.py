"""C07: registering schemas and extensions is all-or-nothing and concerns one schema only."""
import collections
import json
import random

from . import gen, iso, pool, seam, sim, world
from . import spec as S
from .isoprops import _hash, stop_seg
from .sim import FAULT_TEXT

TYPES = ["string", "string", "integer", "decimal", "boolean", "dateTime", "binary", "external", "uri"]
NAMES = ["alpha", "beta", "gamma", "displayName", "userName", "emails", "title", "delta", "manager",
         "costCenter", "labels", "Alpha"]
URNS = ["urn:sim:ext:One", "urn:sim:ext:Two", "urn:sim:ext:three:2.0:X", S.ENT_USER, S.EXT_LAB,
        "urn:Sim:MIXED:Case:1.0:Ext"]
FAULTS = {"MemoryError": MemoryError, "ValueError": ValueError, "KeyError": KeyError,
          "AttributeError": AttributeError, "RuntimeError": RuntimeError, "TypeError": TypeError,
          "StopIteration": None, "KeyboardInterrupt": KeyboardInterrupt}


# ------------------------------------------------------------------ specs of schemas
def attr_spec(r, depth=0):
    name = r.choice(NAMES)
    flags = "".join(f for f in "mroivxs" if r.random() < (0.35 if f == "m" else 0.12))
    if "o" in flags:
        flags = flags.replace("i", "")
    if r.random() < 0.1:
        flags += r.choice("anq")
    if depth == 0 and r.random() < 0.35:
        subs = {}
        for _ in range(r.choice([1, 2, 3])):
            n, t, f, x = attr_spec(r, 1)
            subs[n] = [t, f, x]
        if r.random() < 0.4:
            subs["primary"] = ["boolean", "", None]
        return [name, "complex", flags.replace("v", "").replace("x", ""), subs]
    t = r.choice(TYPES)
    canonical = None
    if t == "string" and r.random() < 0.3:
        canonical = r.sample(["a", "b", "work", "home", "X"], 2)
    return [name, t, flags if canonical else flags.replace("v", ""), canonical]


def attr_specs(r):
    out, seen = [], set()
    for _ in range(r.choice([1, 2, 3, 4])):
        a = attr_spec(r)
        if a[0].lower() not in seen:
            seen.add(a[0].lower())
            out.append(a)
    return out


def row(a, ext=None):
    name, t, flags, extra = a
    if t == "complex":
        x = S.A(name, t, flags, {}, ext)
        x.subs = [row([n, *v]) for n, v in extra.items()]
        return x
    return S.A(name, t, flags, extra, ext)


def schema_spec(r, n):
    base = r.choice(["User", "Group", "Device", "new", "new"])
    return {"base": base, "urn": "urn:sim:new:%d" % n, "name": "New%d" % n, "attrs": attr_specs(r)}


def ext_spec(r):
    u = r.choice(URNS)
    return {"urn": gen.case(r, u, 0.5) if r.random() < 0.4 else u, "attrs": attr_specs(r),
            "required": r.random() < 0.3, "shared": r.random() < 0.5}


def table(sp, exts):
    """Spec table of a schema with extensions (for generating data)."""
    if sp["base"] == "new":
        res = S.R(sp["name"], sp["name"], sp["name"] + "s", sp["urn"], S._COMMON)
        res.attrs += [row(a) for a in sp["attrs"]]
    else:
        res = S.RESOURCES[sp["base"]]
        res = _copy(res)
    return res, exts


def _copy(res):
    x = S.R(res.key, res.name, res.plural, res.core, {})
    x.attrs, x.ext, x.ext_attrs = list(res.attrs), res.ext, list(res.ext_attrs)
    return x


def data_for(r, sp, exts):
    res, _ = table(sp, exts)
    d = gen.resource(r, res, r.choice(["parse", "dump"]))
    named = 0.15 if r.random() < 0.15 else 0.9
    for e in exts:
        if r.random() < 0.8:
            part = {}
            for a in e["attrs"]:
                if r.random() < 0.8:
                    part[gen.case(r, a[0], 0.1)] = gen.value(r, row(a), "parse")
            d[e["urn"]] = part
            k = gen.get_key(d, "schemas")
            if r.random() < named:
                d[k] = list(d[k]) + [e["urn"]]
    if r.random() < 0.3:
        d = gen.damage(r, d, 1)
    return d


# ------------------------------------------------------------------ execution
class Boom:
    """What a broken extension raises while the library reads it."""

    def __init__(self, kind, n):
        self.kind, self.left = kind, n

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise (FAULTS[self.kind] or RuntimeError)(FAULT_TEXT)


class State:
    def __init__(self, lazy=False):
        self.schemas, self.validators, self.parts, self.lazy = {}, {}, {}, lazy
        self.procs = [[world._hook("own.parse")], [world._hook("own.dump")]]
        self.procs_were = [list(p) for p in self.procs]

    def build_attrs(self, specs, share):
        k = json.dumps(specs)
        if share and k in self.parts:
            return self.parts[k]
        lst = [world.build_attr(row(a), self.procs) for a in specs]
        if self.procs != self.procs_were:
            raise AssertionError("the caller's list of processors was modified")
        if share:
            self.parts[k] = lst
        return lst

    def do(self, ev):
        return getattr(self, "do_" + ev["ev"])(ev)

    def do_schema(self, ev):
        from src.assets.schemas import group, user
        from src.data.schemas import ResourceSchema
        sp = ev["spec"]
        if sp["base"] == "new":
            s = type(sp["name"], (ResourceSchema,), {})(
                schema=sp["urn"], attrs=self.build_attrs(sp["attrs"], ev.get("share")),
                name=sp["name"], plural_name=sp["name"] + "s")
        else:
            s = {"User": user.User, "Group": group.Group, "Device": world.device_schema}[sp["base"]]()
        self.schemas[ev["id"]] = s
        if not self.lazy:
            self.validator(ev["id"])
        return "built"

    def validator(self, k):
        from src import request_validators as rv
        if k not in self.validators:
            s = self.schemas[k]
            c = iso.BASE.config
            from src.assets.schemas import group, user
            other = user.User() if isinstance(s, group.Group) else group.Group()
            self.validators[k] = {
                "root": rv.ServerRootResourceGET(c, resource_schemas=[other, s]),
                "search": rv.SearchRequestPOST(c, resource_schemas=[s, other]),
                "bulk": rv.BulkOperations(c, resource_schemas=[s, other]),
                "post": rv.ResourcesPOST(c, resource_schema=s),
                "put": rv.ResourceObjectPUT(c, resource_schema=s),
                "get": rv.ResourceObjectGET(c, resource_schema=s),
                "patch": rv.ResourceObjectPATCH(c, resource_schema=s),
                "list": rv.ResourcesGET(c, resource_schema=s)}
        return self.validators[k]

    def do_extend(self, ev):
        from src.data.schemas import SchemaExtension
        e = ev["ext"]
        attrs = self.build_attrs(e["attrs"], e.get("shared"))
        before = list(attrs)
        x = SchemaExtension(schema=e["urn"], attrs=attrs)
        f = ev.get("fault")
        if f:
            x = broken(x, f)
        try:
            self.schemas[ev["on"]].with_extension(x, required=e["required"])
        finally:
            if attrs != before or any(a is not b for a, b in zip(attrs, before)):
                raise AssertionError("the caller's attribute list was modified")
        return "registered"

    def do_probe(self, ev):
        from src.data.schemas import get_schema_rep
        from src.filter import Filter
        from src.data.container import SCIMDataContainer
        from . import ops
        s = self.schemas[ev["on"]]
        how = ev["how"]
        if how == "names":
            return [list(s.schemas), list(s.schema_extensions), s.schema, s.name,
                    [[str(a.rep), a.required, a.multi_valued] for a in s.attrs]]
        if how == "rep":
            return get_schema_rep(s)
        data = ops.decode(ev["data"])
        if how in ("parse", "dump"):
            return getattr(s, how)(data)
        v = self.validator(ev["on"])
        if how in ("post", "put"):
            return v[how].parse_request(body=data)
        if how == "get":
            return v["get"].dump_response(status_code=200, body=data, headers=None)
        if how == "patch":
            return v["patch"].parse_request(body={
                "schemas": [S.MSG + "PatchOp"], "Operations": [{"op": "add", "value": data}]})
        if how in ("list", "root", "search"):
            return v[how].dump_response(status_code=200, body={
                "schemas": [S.MSG + "ListResponse"], "totalResults": 1, "itemsPerPage": 1, "Resources": [data]})
        if how == "bulk":
            return v["bulk"].parse_request(body={"schemas": [S.MSG + "BulkRequest"], "Operations": [
                {"method": "PUT", "path": "/%s/1" % s.plural_name, "data": data}]})
        if how == "bulk answer":
            return v["bulk"].dump_response(status_code=200, body={"schemas": [S.MSG + "BulkResponse"], "Operations": [
                {"method": "PUT", "location": "https://x/%s/1" % s.plural_name, "status": "200", "response": data}]})
        if how == "match":
            f = Filter.parse(ev["exp"])[0]
            return f(SCIMDataContainer(data), s, False) if f else "unparsable"
        raise AssertionError(how)


def broken(x, f):
    """The extension as a faulty application hands it over: reading it fails after a while."""
    from src.data.schemas import SchemaExtension
    boom = Boom(f["kind"], f["n"])

    if f["where"] == "iter":
        from src.data.attributes import Attributes

        class Attrs(Attributes):
            def __init__(self, inner):
                self.__dict__.update(inner.__dict__)

            def __iter__(self):
                for a in Attributes.__iter__(self):
                    boom.tick()
                    yield a
                boom.tick()

        class Ext(SchemaExtension):
            def __init__(self):
                self.__dict__.update(x.__dict__)

            attrs = property(lambda self: Attrs(x.attrs))
        return Ext()
    # reading a property of one of its attributes fails
    for a in x.attrs:
        cls = type(a)

        def prop(n, cls=cls):
            def get(self):
                boom.tick()
                return getattr(super(type(self), self), n)
            return property(get)

        sub = type(cls.__name__, (cls,), {n: prop(n) for n in (
            "parsers", "dumpers", "issuer", "returned", "uniqueness")})
        a.__class__ = sub
    return x


def outcome(st, ev):
    try:
        res = ("ok", st.do(ev))
    except BaseException as e:  # noqa
        res = ("raised", e)
    return iso.settle(res)


def execute(scn):
    st = State()
    seam.enter(scn.get("clock", seam.T0), scn.get("entropy", 0))
    seen = []
    for ev in scn["events"]:
        if ev["ev"] == "together":
            jobs = [[lambda e=e: outcome(st, e) for e in lst] for lst in ev["threads"]]
            s = sim.Sim(jobs, ev["plan"], finish=lambda t, i, res: res).run()
            for t, lst in enumerate(ev["threads"]):
                for i, e in enumerate(lst):
                    tag, v = s.out[t][i]
                    seen.append([e, v if tag == "ok" else ["raised", "harness", str(v)]])
        else:
            seen.append([ev, outcome(st, ev)])
    return {"seen": seen}


_cache = {}


def alone(schema_ev, exts, probe):
    k = json.dumps([schema_ev, exts, probe], sort_keys=True)
    if k not in _cache:
        if len(_cache) > 5000:
            _cache.clear()

        def fn():
            st = State(lazy=True)
            st.do(dict(schema_ev, share=False))
            for e in exts:
                st.do({"ev": "extend", "on": schema_ev["id"], "ext": dict(e, shared=False)})
            return outcome(st, probe)
        st, v = pool.in_child(fn)
        _cache[k] = v if st == "ok" else ["no-answer", st]
    return _cache[k]


class C07:
    id = "C07"
    level = "exploration"
    runs_per_block = 12
    rule = ("a run builds 2-4 schemas (User, Group, Device and generated ones, sharing attribute objects), registers "
            "extensions on them, some of which fail while they are being read or reuse a schema URN in another letter case, "
            "partly on several threads for different schemas, and probes all of them in between; every probe is compared with a process "
            "in which only that schema and its successful registrations exist; non-trivial: a registration was refused or failed, "
            "or happened beside another; distinct: hash of the events")
    stubs = ["extension objects of a faulty application", "wall clock and getrandom (interposed libc)"]
    assumptions = ["registration and use of the same schema are not concurrent"]
    setup = staticmethod(iso.setup)

    def blocks(self, tier):
        return {"quick": 120, "thorough": 4000}[tier]

    def scenario(self, r):
        n = r.choice([2, 2, 3, 4])
        evs, specs, exts = [], [], [[] for _ in range(n)]
        for k in range(n):
            sp = schema_spec(r, k)
            if specs and r.random() < 0.4:
                sp = dict(r.choice(specs))
            specs.append(sp)
        pending = [{"ev": "schema", "id": k, "spec": specs[k], "share": r.random() < 0.6} for k in range(n)]
        late = pending.pop() if r.random() < 0.3 else None
        evs += pending
        live = list(range(n - 1 if late else n))
        pool_ = [ext_spec(r) for _ in range(r.choice([1, 2, 3]))]

        def extend(k):
            e = r.choice(pool_) if r.random() < 0.7 else ext_spec(r)
            if r.random() < 0.12:
                e = dict(e, urn=gen.case(r, specs[k]["urn"] if specs[k]["base"] == "new" else
                                         S.RESOURCES[specs[k]["base"]].core, 0.7))
            if exts[k] and r.random() < 0.35:
                e = dict(e, urn=gen.case(r, r.choice(exts[k])["urn"], 0.7))
            ev = {"ev": "extend", "on": k, "ext": e}
            if r.random() < 0.3:
                ev["fault"] = {"kind": r.choice(sorted(FAULTS)), "n": r.choice([0, 1, 2, 3, 6]),
                               "where": r.choice(["iter", "iter", "prop"])}
                if ev["fault"]["where"] == "prop":
                    ev["ext"] = dict(e, shared=False)
            exts[k] = exts[k] + [ev["ext"]]
            return ev

        asked = {}

        def probe(k):
            if asked.get(k) and r.random() < 0.4:            # the same message as before
                return r.choice(asked[k])
            ev = new_probe(k)
            asked.setdefault(k, []).append(ev)
            return ev

        def new_probe(k):
            how = r.choice(["names", "names", "rep", "parse", "dump", "post", "put", "get", "patch", "match",
                            "list", "root", "root", "search", "bulk", "bulk answer"])
            ev = {"ev": "probe", "on": k, "how": how}
            if how not in ("names", "rep"):
                ev["data"] = data_for(r, specs[k], exts[k][-3:] or r.sample(pool_, 1))
            if how == "match":
                e = r.choice(pool_)
                ev["exp"] = "%s:%s %s" % (e["urn"], e["attrs"][0][0], r.choice(["pr", 'eq "a"', "eq 1"]))
            return ev

        for _ in range(r.choice([4, 7, 11])):
            x = r.random()
            if late and x < 0.15:
                evs.append(late)
                live.append(late["id"])
                late = None
            elif x < 0.45:
                evs.append(extend(r.choice(live)))
            elif x < 0.55 and len(live) > 1:
                ks = r.sample(live, 2)
                th = [[(extend if r.random() < 0.6 else probe)(k) for _ in range(r.choice([1, 2]))] for k in ks]
                plan = []
                for _ in range(r.choice([2, 4, 8])):
                    plan.append([r.randrange(2), "step", 1 + int(r.expovariate(1) * r.choice([5, 40, 200]))])
                evs.append({"ev": "together", "threads": th, "plan": plan})
            else:
                evs.append(probe(r.choice(live)))
        for k in live:
            evs.append({"ev": "probe", "on": k, "how": "names"})
            evs.append(probe(k))
        return {"events": evs, "clock": seam.instant(r), "entropy": r.randrange(1 << 40)}

    def judge(self, scn):
        st, obs = pool.in_child(lambda: execute(scn), timeout=120)
        if st != "ok":
            return {"class": "no-answer", "detail": "the simulated process %s" % st}, None
        made, done = {}, {}
        for i, (ev, out) in enumerate(obs["seen"]):
            k = ev.get("on")
            bad = None
            if ev["ev"] == "schema":
                made[ev["id"]], done[ev["id"]] = ev, []
                if out != ["ok", "built"]:
                    bad = ["ok", "built"]
            elif k not in made:
                continue                           # its schema was cut away by the shrinker
            elif ev["ev"] == "extend":
                sp = made[k]["spec"]
                main = sp["urn"] if sp["base"] == "new" else S.RESOURCES[sp["base"]].core
                have = [main.lower()] + [e["urn"].lower() for e in done[k]]
                if sp["base"] == "User":
                    have.append(S.ENT_USER.lower())
                if sp["base"] == "Device":
                    have.append(S.EXT_LAB.lower())
                dup = ev["ext"]["urn"].lower() in have
                if dup:
                    if out[0] != "raised":
                        bad = ["raised", "ValueError"]
                elif out == ["ok", "registered"]:
                    done[k].append(ev["ext"])
                elif not (ev.get("fault") and out[0] == "raised" and FAULT_TEXT in out[2]):
                    bad = ["ok", "registered"]
            else:
                want = alone(made[k], done[k], ev)
                if out != want:
                    bad = want
            if bad is not None:
                return {"class": "mismatch", "label": "event %d" % i, "op": ev, "got": out, "want": bad,
                        "detail": "after these registrations the schema does not behave as one that only had "
                                  "the successful ones"}, obs
        return None, obs

    def block(self, seed, b, tier, over):
        st = collections.Counter()
        sigs, digest = [], []
        sample = None
        n = 0
        for i in range(self.runs_per_block):
            scn = self.scenario(iso.rng_of(self.id, seed, b, i))
            bad, obs = self.judge(scn)
            n += 1
            digest.append(_hash([scn, obs]))
            odd = 0
            for ev, out in (obs or {"seen": []})["seen"]:
                st["events " + ev["ev"]] += 1
                if ev["ev"] == "extend" and out[0] == "raised":
                    odd += 1
                    if FAULT_TEXT in out[2]:
                        st["fault extension fails while read (%s)" % out[1]] += 1
                    else:
                        st["registrations refused"] += 1
            together = sum(ev["ev"] == "together" for ev in scn["events"])
            st["concurrent registrations"] += together
            if odd or together:
                sigs.append(_hash(scn["events"]))
                sample = sample or {"events": scn["events"][:5]}
            if bad:
                return {"runs": n, "stats": st, "sigs": sigs, "sample": sample, "violation": bad,
                        "scenario": scn, "run": [b, i], "digest": _hash(digest)}
            if over():
                break
        return {"runs": n, "stats": st, "sigs": sigs, "sample": sample, "violation": None,
                "digest": _hash(digest)}

    def shrink(self, scn):
        yield from iso.shrink_lists(scn, ("events",))
        for i, ev in enumerate(scn["events"]):
            def put(e2):
                return dict(scn, events=scn["events"][:i] + e2 + scn["events"][i + 1:])
            if ev["ev"] == "together":
                yield put([e for lst in ev["threads"] for e in lst])
                for j in range(len(ev["plan"])):
                    yield put([dict(ev, plan=ev["plan"][:j] + ev["plan"][j + 1:])])
            if ev["ev"] == "extend" and ev.get("fault"):
                yield put([{k: v for k, v in ev.items() if k != "fault"}])
            if ev["ev"] == "probe" and isinstance(ev.get("data"), dict):
                for k in ev["data"]:
                    yield put([dict(ev, data={a: b for a, b in ev["data"].items() if a != k})])
            if ev["ev"] == "extend" and len(ev["ext"]["attrs"]) > 1:
                for j in range(len(ev["ext"]["attrs"])):
                    a = ev["ext"]["attrs"]
                    yield put([dict(ev, ext=dict(ev["ext"], attrs=a[:j] + a[j + 1:]))])


REG = {"C07": C07}
