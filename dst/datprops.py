"""C19 and C20: histories of the two records every handler of a deployment works on - the content of a
resource (SCIMDataContainer) and the report of its issues (ValidationIssues) - against reference models.
Several records live side by side, are made of one another, and some assignments are refused or break off."""
import collections
import json

from . import gen, iso, pool
from . import spec as S
from .isoprops import _hash

ATTRS = ["userName", "name", "emails", "members", "$ref", "x-y", "displayName", "value", "title"]
SUBS = ["value", "type", "givenName", "$ref", "primary", "display"]
EXTS = ["urn:sim:ext:One", "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User"]
CORE = "urn:ietf:params:scim:schemas:core:2.0:User"
SCALARS = ["a", "b", "", "A", 0, 1, 2.5, True, False, None, "x.y", "5"]


def spell(r, s, p=0.5):
    return gen.case(r, s, p)


# ------------------------------------------------------------------ reference model of contents
class Rec:
    """An attribute is found in any letter case; it has one spelling and one value."""

    def __init__(self):
        self.a = {}

    def keys(self):
        return list(self.a)

    def __eq__(self, o):
        return isinstance(o, Rec) and self.a.keys() == o.a.keys() and all(self.a[k][1] == o.a[k][1] for k in self.a)


class Refused(Exception):
    pass


def rec(d):
    out = Rec()
    for k, v in d.items():
        out.a[k.lower()] = [k, made(v)]
    return out


def made(v):
    if isinstance(v, dict):
        return rec(v.get("$c", v))
    if isinstance(v, list):
        return [made(x) for x in v]
    return v


def home(m, ref):
    """Where a reference leads: the content itself, or one of its extensions (None: absent, False: no place)."""
    e = ref["schema"].lower()
    if ref["schema"] and e in m.a:
        return m.a[e][1] if isinstance(m.a[e][1], Rec) else False
    return None if ref["ext"] else m


def m_get(m, ref):
    h = home(m, ref)
    if not h:
        return MISSING
    x = h.a.get(ref["attr"].lower())
    if x is None:
        return MISSING
    v = x[1]
    if not ref["sub"]:
        return v
    one = lambda i: i.a[ref["sub"].lower()][1] if isinstance(i, Rec) and ref["sub"].lower() in i.a else MISSING  # noqa
    if isinstance(v, list):
        return [one(i) for i in v]
    return one(v)


def m_set(m, ref, v):
    h = home(m, ref)
    if h is False:
        raise Refused()
    if h is None:
        h = Rec()
        m.a[ref["schema"].lower()] = [ref["schema"], h]
    k = ref["attr"].lower()
    if not ref["sub"]:
        h.a[k] = [ref["attr"], v]
        return
    x = h.a.get(k)
    s = ref["sub"].lower()
    many = isinstance(v, list)
    if x is None:
        x = h.a[k] = [ref["attr"], [] if many else Rec()]
    if isinstance(x[1], Rec):
        x[1].a[s] = [ref["sub"], v]
    elif many and isinstance(x[1], list) and all(isinstance(i, Rec) for i in x[1]):
        while len(x[1]) < len(v):
            x[1].append(Rec())
        for i, item in zip(x[1], v):
            if item is not MISSING:
                i.a[s] = [ref["sub"], item]
    else:
        raise Refused()


def m_del(m, ref):
    h = home(m, ref)
    if not h:
        return
    x = h.a.get(ref["attr"].lower())
    if x is None:
        return
    if not ref["sub"]:
        del h.a[ref["attr"].lower()]
        return
    for i in x[1] if isinstance(x[1], list) else [x[1]]:
        if isinstance(i, Rec):
            i.a.pop(ref["sub"].lower(), None)


class _Missing:
    pass


MISSING = _Missing()


def flat(v):
    """Comparable form of a value of the model."""
    if v is MISSING:
        return ["absent"]
    if isinstance(v, Rec):
        return {k: flat(x[1]) for k, x in v.a.items()}
    if isinstance(v, list):
        return [flat(x) for x in v]
    return [type(v).__name__, v]


class Doubled(Exception):
    pass


def seen(v):
    """Comparable form of a value read from the real code."""
    from src.data.container import Missing, SCIMDataContainer
    if v is Missing:
        return ["absent"]
    if isinstance(v, SCIMDataContainer):
        v = v.to_dict()
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if k.lower() in out:
                raise Doubled("%r appears in more than one spelling" % k)
            out[k.lower()] = seen(x)
        return out
    if isinstance(v, list):
        return [seen(x) for x in v]
    return [type(v).__name__, v]


def plain(m):
    """The content as the dictionary an application would pass."""
    if isinstance(m, Rec):
        return {k: plain(v) for k, v in m.a.values()}
    if isinstance(m, list):
        return [plain(x) for x in m]
    return m


# ------------------------------------------------------------------ generation
def content(r, depth=0):
    out = {}
    for n in r.sample(ATTRS if not depth else SUBS, r.choice([0, 1, 2, 3, 4] if not depth else [0, 1, 2])):
        out[spell(r, n, 0.3)] = value(r, depth, False)
    if not depth and r.random() < 0.5:
        for u in r.sample(EXTS, r.choice([1, 1, 2])):
            out[spell(r, u, 0.4)] = {spell(r, n, 0.3): value(r, 1, False) for n in r.sample(ATTRS, r.choice([0, 1, 2]))} \
                if r.random() < 0.9 else r.choice(["text", 5, None])
    return out


def value(r, depth, wrap=True):
    """A value as it is assigned ({"$c": ...} stands for a container) or as it occurs in a dictionary."""
    x = r.random()
    if depth or x < 0.4:
        return r.choice(SCALARS) if x < 0.8 else [r.choice(SCALARS) for _ in range(r.choice([0, 1, 2]))]
    w = (lambda d: {"$c": d}) if wrap else (lambda d: d)
    if x < 0.6:
        return w(content(r, 1))
    if x < 0.9:
        return [w(content(r, 1)) for _ in range(r.choice([0, 1, 2, 3]))]
    return [r.choice(SCALARS) if r.random() < 0.5 else w(content(r, 1)) for _ in range(r.choice([1, 2, 3]))]


def ref(r):
    x = r.random()
    schema, ext = "", False
    if x < 0.35:
        schema, ext = spell(r, r.choice(EXTS)), r.random() < 0.7
    elif x < 0.45:
        schema = spell(r, CORE)
    attr = spell(r, r.choice(ATTRS))
    return {"schema": schema, "ext": ext, "attr": attr, "sub": spell(r, r.choice(SUBS)) if r.random() < 0.5 else "",
            "form": "rep" if ext or r.random() < 0.5 else "str"}


def event(r, n):
    do = r.choice(["set"] * 10 + ["get", "get", "del", "del", "del", "eq", "like", "like", "made", "within", "within"])
    ev = {"do": do, "on": r.randrange(n)}
    if do in ("set", "get", "del"):
        ev["ref"] = ref(r)
    if do == "set":
        if ev["ref"]["sub"]:
            x = r.random()
            if x < 0.55:
                ev["value"] = [r.choice(SCALARS) if r.random() < 0.8 else {"$m": 1} for _ in range(r.choice([0, 1, 2, 2, 3]))]
                if r.random() < 0.3:
                    ev["lazy"] = r.choice([0, 1, 1, 2])
            else:
                ev["value"] = r.choice(SCALARS)
        else:
            ev["value"] = value(r, 0)
    elif do == "eq":
        ev["with"] = r.randrange(n)
    elif do == "like":
        ev["how"], ev["s"] = r.choice(["same", "more", "less", "other"]), r.randrange(1 << 30)
    elif do == "within":
        ev["ref"] = dict(ref(r), sub="")
        ev.update(i=r.randrange(3), name=spell(r, r.choice(SUBS)), value=value(r, 1) if r.random() < 0.75 else None, gone=r.random() < 0.25)
    elif do == "made":
        ev["of"] = r.choice(["source", "content"])
        ev["with"] = r.randrange(n)
    return ev


# ------------------------------------------------------------------ execution
class Boom(Exception):
    pass


class Lazy(list):
    """A list whose items are fetched on demand; fetching fails after a few."""
    left = 0

    def __iter__(self):
        for i, x in enumerate(list.__iter__(self)):
            if i >= self.left:
                raise Boom("fault: items can not be fetched")
            yield x


def real_value(v):
    from src.data.container import Missing, SCIMDataContainer
    if isinstance(v, dict):
        return Missing if "$m" in v else SCIMDataContainer(real_value_dict(v["$c"]))
    if isinstance(v, list):
        return [real_value(x) for x in v]
    return v


def real_value_dict(d):
    return json.loads(json.dumps(d))


def model_value(v):
    if isinstance(v, dict):
        return MISSING if "$m" in v else rec(v["$c"])
    if isinstance(v, list):
        return [model_value(x) for x in v]
    return v


def real_ref(f):
    from src.data.container import AttrRep
    if f["form"] == "rep":
        return AttrRep(schema=f["schema"], attr=f["attr"], sub_attr=f["sub"], extension=f["ext"])
    t = f["attr"] + ("." + f["sub"] if f["sub"] else "")
    return f["schema"] + ":" + t if f["schema"] else t


def variant(r, m, how):
    """A dictionary equal to the content up to letter case, or one that differs in a single place."""
    d = plain(m)
    places = []

    def walk(x):
        if isinstance(x, dict):
            places.append(x)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(d)
    p = r.choice(places)
    if how == "more":
        p["extraName"] = 1
    elif how == "less" or how == "other":
        if not p:
            p = d
        if not p:
            return None
        k = r.choice(sorted(p))
        if how == "less":
            del p[k]
        else:
            p[k] = "another value"

    def recase(x):
        if isinstance(x, dict):
            return {spell(r, k): recase(v) for k, v in x.items()}
        return [recase(v) for v in x] if isinstance(x, list) else x
    return recase(d)


class Wrong(Exception):
    def __init__(self, what, got=None, want=None):
        super().__init__(what)
        self.what, self.got, self.want = what, got, want


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:  # noqa
        return ("raised", e)


def must(what, f):
    tag, v = attempt(f)
    if tag != "ok":
        raise Wrong("%s raised %s: %s" % (what, type(v).__name__, v))
    return v


class Contents:
    def __init__(self, scn):
        from src.data.container import SCIMDataContainer
        self.C = SCIMDataContainer
        self.st = collections.Counter()
        self.scn = scn
        self.source = [json.loads(json.dumps(d)) for d in scn["sources"]]
        self.real = [SCIMDataContainer(d) for d in self.source]
        self.model = [rec(d) for d in scn["sources"]]

    def do_set(self, ev):
        c, m = self.real[ev["on"]], self.model[ev["on"]]
        want = "done"
        val = ev["value"]
        if ev["ref"]["sub"] and isinstance(val, list) and isinstance(m_get(m, dict(ev["ref"], sub="")), Rec):
            val = [None if isinstance(x, dict) else x for x in val]      # kept as a list: no gaps
        try:
            probe = clone(m)
            m_set(probe, ev["ref"], model_value(val))
        except Refused:
            want = "refused"
        rf, v = real_ref(ev["ref"]), real_value(val)
        if "lazy" in ev and want == "done":
            lazy = Lazy(v)
            lazy.left = ev["lazy"]
            tag, e = attempt(lambda: c.__setitem__(rf, lazy))
            if tag == "raised":
                if not isinstance(e, Boom):
                    raise Wrong("assigning %s raised %s: %s" % (rf, type(e).__name__, e))
                self.st["fault broken-off assignment"] += 1
                self.intact(ev)
            else:
                # kept as it is, by a single complex attribute: give it the value proper
                self.st["assignment did not read the items"] += 1
        tag, e = attempt(lambda: c.__setitem__(rf, v))
        if want == "refused":
            self.st["fault refused assignment"] += 1
            if tag == "ok":
                raise Wrong("assigning %s was accepted, but there is no such place" % rf)
            return
        if tag == "raised":
            raise Wrong("assigning %s raised %s: %s" % (rf, type(e).__name__, e))
        self.model[ev["on"]] = probe

    def intact(self, ev):
        """After an assignment broke off: everything else is as it was, and all of it can be read."""
        f = ev["ref"]
        c, m = self.real[ev["on"]], self.model[ev["on"]]
        got, want = seen(must("to_dict", c.to_dict)), flat(m)
        for d in (got, want):
            e = f["schema"].lower()
            if home(m, f) is not m:
                if isinstance(d.get(e), dict):
                    d[e].pop(f["attr"].lower(), None)
                    if not d[e]:
                        d.pop(e)
            else:
                d.pop(f["attr"].lower(), None)
        if got != want:
            raise Wrong("a broken-off assignment of %s changed other attributes" % real_ref(f), got, want)
        must("reading %s after its assignment broke off" % real_ref(f), lambda: c[real_ref(f)])

    def do_get(self, ev):
        rf = real_ref(ev["ref"])
        got = seen(must("reading %s" % rf, lambda: self.real[ev["on"]][rf]))
        want = flat(m_get(self.model[ev["on"]], ev["ref"]))
        if got != want:
            raise Wrong("reading %s" % rf, got, want)

    def do_del(self, ev):
        rf = real_ref(ev["ref"])
        must("deleting %s" % rf, lambda: self.real[ev["on"]].__delitem__(rf))
        m_del(self.model[ev["on"]], ev["ref"])

    def do_within(self, ev):
        """A complex value, or an item, that was read is the place itself."""
        rf = real_ref(ev["ref"])
        x, m = must("reading %s" % rf, lambda: self.real[ev["on"]][rf]), m_get(self.model[ev["on"]], ev["ref"])
        if seen(x) != flat(m):
            raise Wrong("reading %s" % rf, seen(x), flat(m))
        if isinstance(m, list) and m:
            x, m = x[ev["i"] % len(m)], m[ev["i"] % len(m)]
        if not isinstance(m, Rec):
            return
        self.st["changes through a part"] += 1
        if ev["gone"]:
            must("deleting %s within %s" % (ev["name"], rf), lambda: x.__delitem__(ev["name"]))
            m.a.pop(ev["name"].lower(), None)
        else:
            must("assigning %s within %s" % (ev["name"], rf), lambda: x.__setitem__(ev["name"], real_value(ev["value"])))
            m.a[ev["name"].lower()] = [ev["name"], model_value(ev["value"])]

    def do_eq(self, ev):
        a, b = ev["on"], ev["with"]
        want = self.model[a] == self.model[b]
        for x, y in ((a, b), (b, a)):
            if must("comparing", lambda: self.real[x] == self.real[y]) is not want:
                raise Wrong("containers %d and %d compared" % (x, y), not want, want)
            if must("comparing", lambda: self.real[x] != self.real[y]) is want:
                raise Wrong("containers %d and %d compared with !=" % (x, y), want, not want)

    def do_like(self, ev):
        m, c = self.model[ev["on"]], self.real[ev["on"]]
        d = variant(iso.rng_of(ev["s"]), m, ev["how"])
        if d is None:
            return
        want = rec(d) == m
        for what, f in (("container == dict", lambda: c == d), ("dict == container", lambda: d == c),
                        ("container == container", lambda: self.C(d) == c), ("container == container", lambda: c == self.C(d))):
            got = must(what, f)
            if got is not want:
                raise Wrong("%s, the other content is %s" % (what, json.dumps(d)), got, want)
        if must("comparing", lambda: c == None) or must("comparing", lambda: c == [d]):  # noqa
            raise Wrong("a container is equal to something that is none", True, False)

    def do_made(self, ev):
        if ev["of"] == "source":
            self.real[ev["on"]] = self.C(self.source[ev["with"]])
            self.model[ev["on"]] = rec(self.scn["sources"][ev["with"]])
        else:
            d = must("to_dict", self.real[ev["with"]].to_dict)
            self.real[ev["on"]] = must("making a container", lambda: self.C(d))
            self.model[ev["on"]] = clone(self.model[ev["with"]])

    def check(self, r):
        for k, (c, m) in enumerate(zip(self.real, self.model)):
            try:
                got = seen(must("to_dict", c.to_dict))
            except Doubled as e:
                raise Wrong("container %d: %s" % (k, e))
            if got != flat(m):
                raise Wrong("content of container %d" % k, got, flat(m))
        if self.source != self.scn["sources"]:
            raise Wrong("a dictionary from which a container was made", self.source, self.scn["sources"])
        # one container is read through and through, in other letter cases
        k = r.randrange(len(self.real))
        c, m = self.real[k], self.model[k]
        exts = {u.lower() for u in EXTS}
        for name, (_, v) in m.a.items():
            if name in exts:
                inner = v.a if isinstance(v, Rec) else {n.lower(): None for n in ATTRS[:2]}
                refs = [{"schema": name, "ext": True, "attr": n, "sub": "", "form": "rep"} for n in inner]
            else:
                refs = [{"schema": "", "ext": False, "attr": name, "sub": "", "form": r.choice(["rep", "str"])}]
            for f in refs:
                f["attr"], f["schema"] = spell(r, f["attr"]), spell(r, f["schema"]) if f["schema"] else ""
                for s in ["", r.choice(SUBS)]:
                    f = dict(f, sub=s)
                    rf = real_ref(f)
                    try:
                        got = seen(must("reading %s" % rf, lambda: c[rf]))
                    except Doubled as e:
                        raise Wrong("container %d: %s" % (k, e))
                    if got != flat(m_get(m, f)):
                        raise Wrong("reading %s of container %d" % (rf, k), got, flat(m_get(m, f)))


def clone(v):
    if isinstance(v, Rec):
        out = Rec()
        out.a = {k: [s, clone(x)] for k, (s, x) in v.a.items()}
        return out
    return [clone(x) for x in v] if isinstance(v, list) else v


# ------------------------------------------------------------------ reports
ISSUES = [
    ("bad_value_syntax", {}, 1), ("bad_type", {"expected": "string", "provided": "integer"}, 2),
    ("bad_type", {"expected": "complex", "provided": "list"}, 2), ("missing", {}, 15), ("missing", {}, 15),
    ("must_be_equal_to", {"value": "x"}, 11), ("must_be_equal_to", {"value": 5}, 11), ("unknown_schema", {}, 27),
    ("missing_main_schema", {}, 28), ("missing_schema_extension", {"extension": "urn:x"}, 29),
    ("must_be_one_of", {"expected_values": ["a", "b"], "provided": "c"}, 14), ("bad_operation_path", {}, 300),
    ("too_many_operations", {"max_": 3}, 37), ("restricted_or_not_requested", {}, 19)]
PARTS = ["body", "name", "emails", "meta", "schemas", 0, 1, 2]
LOCS = [[], ["body"], ["body", "emails"], ["body", "emails", 0], ["body", "emails", 1], ["body", "emails", 0, "value"],
        ["body", "name"], ["status"], ["headers", "Location"], ["body", "meta", "location"]]


def loc(r, few):
    if r.random() < 0.85:
        return list(r.choice(few))
    return [r.choice(PARTS) for _ in range(r.choice([0, 1, 2, 3]))]


def report_event(r, n, few, kinds):
    do = r.choice(["add"] * 8 + ["merge"] * 4 + ["get"] * 3 + ["pop"] * 4 + ["again"])
    ev = {"do": do, "on": r.randrange(n), "list": r.random() < 0.3}
    if do in ("add", "again"):
        ev.update(issue=r.choice(kinds), proceed=r.random() < 0.6, loc=loc(r, few))
        if not ev["loc"] and r.random() < 0.5:
            ev["loc"] = None
        if do == "again":
            ev["n"] = r.choice([2, 3])
    elif do == "merge":
        ev.update(loc=loc(r, few) if r.random() < 0.5 else None, **{"from": r.choice([k for k in range(n) if k != ev["on"]])})
    else:
        ev.update(loc=loc(r, few), to=r.randrange(n))
        if do == "pop":
            ev["code"] = ISSUES[r.choice(kinds)][2]
    return ev


class Reports:
    def __init__(self, scn):
        from src.error import ValidationError, ValidationIssues
        self.E, self.I = ValidationError, ValidationIssues
        self.st = collections.Counter()
        self.real = [ValidationIssues() for _ in range(scn["n"])]
        self.model = [({}, {}) for _ in range(scn["n"])]

    def where(self, ev):
        if ev["loc"] is None:
            return None
        return list(ev["loc"]) if ev["list"] else tuple(ev["loc"])

    def do_add(self, ev, n=1):
        name, kw, code = ISSUES[ev["issue"]]
        e = getattr(self.E, name)(**kw)
        if e.code != code:
            raise Wrong("code of %s" % name, e.code, code)
        is_, stops = self.model[ev["on"]]
        at = tuple(ev["loc"] or ())
        for _ in range(n):
            must("add", lambda: self.real[ev["on"]].add(issue=e, proceed=ev["proceed"], location=self.where(ev)))
            is_.setdefault(at, []).append([code, str(e), json.loads(json.dumps(e.context))])
        if not ev["proceed"]:
            stops.setdefault(at, set()).add(code)

    def do_again(self, ev):
        self.do_add(ev, ev["n"])

    def do_merge(self, ev):
        at = None if ev["loc"] is None else tuple(ev["loc"])
        must("merge", lambda: self.real[ev["on"]].merge(self.real[ev["from"]], location=at))
        is_, stops = self.model[ev["on"]]
        is2, stops2 = self.model[ev["from"]]
        for k, v in is2.items():
            is_.setdefault((at or ()) + k, []).extend(v)
        for k, v in stops2.items():
            stops.setdefault((at or ()) + k, set()).update(v)

    def do_get(self, ev):
        at = tuple(ev["loc"])
        got = must("get", lambda: self.real[ev["on"]].get(self.where(ev)))
        is_, stops = self.model[ev["on"]]
        self.real[ev["to"]] = got
        self.model[ev["to"]] = ({k[len(at):]: list(v) for k, v in is_.items() if k[:len(at)] == at},
                                {k[len(at):]: set(v) for k, v in stops.items() if k[:len(at)] == at})

    def do_pop(self, ev):
        at = tuple(ev["loc"])
        got = must("pop", lambda: self.real[ev["on"]].pop(self.where(ev), code=ev["code"]))
        is_, stops = self.model[ev["on"]]
        out = [x for x in is_.get(at, []) if x[0] == ev["code"]]
        new = ({(): out}, {}) if out else ({}, {})
        if out:
            is_[at] = [x for x in is_[at] if x[0] != ev["code"]]
            if not is_[at]:
                del is_[at]
            if ev["code"] in stops.get(at, ()):
                new[1][()] = {ev["code"]}
                stops[at].discard(ev["code"])
                if not stops[at]:
                    del stops[at]
            self.st["issues popped"] += len(out)
        self.check_one(ev["on"], self.real[ev["on"]], self.model[ev["on"]])
        if ev["to"] != ev["on"]:
            self.real[ev["to"]], self.model[ev["to"]] = got, new
        else:
            self.check_one("popped", got, new)

    def check_one(self, k, real, m):
        is_, stops = m
        want = {}
        for at, lst in is_.items():
            d = want
            for p in at:
                d = d.setdefault(str(p), {})
            d.setdefault("_errors", []).extend(lst)

        def norm(d):
            return {n: [[e.get("code"), e.get("error"), e.get("context")] for e in v] if n == "_errors" else norm(v)
                    for n, v in d.items()}
        got = json.loads(json.dumps(norm(must("to_dict", lambda: real.to_dict(msg=True, ctx=True)))))
        if got != json.loads(json.dumps(want)):
            raise Wrong("issues of report %s" % k, got, want)
        short = must("to_dict", real.to_dict)

        def codes(d, f):
            return {n: [f(e) for e in v] if n == "_errors" else codes(v, f) for n, v in d.items()}
        if short != codes(want, lambda e: {"code": e[0]}):
            raise Wrong("codes of report %s" % k, short, codes(want, lambda e: {"code": e[0]}))
        every = [tuple(x) for x in LOCS] + [("body", "emails", 0, "value", "x"), ("emails",), ("meta", 0), (0,)]
        for at in every:
            for form in (tuple, list):
                x = form(at)
                w = any(p[:len(at)] == at for p in is_)
                if must("has_issues", lambda: real.has_issues(x)) is not w:
                    raise Wrong("has_issues(%r) of report %s" % (x, k), not w, w)
                w = not any(at[:i] in stops for i in range(len(at) + 1))
                if must("can_proceed", lambda: real.can_proceed(x)) is not w:
                    raise Wrong("can_proceed(%r) of report %s" % (x, k), not w, w)
        if must("has_issues", real.has_issues) is not bool(is_):
            raise Wrong("has_issues() of report %s" % k, not is_, bool(is_))
        if must("can_proceed", real.can_proceed) is not (() not in stops):
            raise Wrong("can_proceed() of report %s" % k, () in stops, () not in stops)
        two = [("body",), ("status",)]
        w = any(p[:1] in two for p in is_)
        if must("has_issues", lambda: real.has_issues(*two)) is not w:
            raise Wrong("has_issues of two locations of report %s" % k, not w, w)
        w = not any(p in stops for p in [()] + two)
        if must("can_proceed", lambda: real.can_proceed(*two)) is not w:
            raise Wrong("can_proceed of two locations of report %s" % k, not w, w)

    def check(self, r):
        for k, (real, m) in enumerate(zip(self.real, self.model)):
            self.check_one(k, real, m)


# ------------------------------------------------------------------ properties
class Data:
    level = "exploration"
    per_block = 60
    length = (6, 30)

    @staticmethod
    def setup():
        pool.zygote(locks=False)

    def judge(self, scn):
        def run():
            try:
                b, st = self.play(scn)
            except Wrong as e:
                return [e.what, e.got, e.want, getattr(e, "at", None)], {}
            return b, st
        tag, got = pool.in_child(run)
        if tag == "timeout":
            return {"class": "mismatch", "label": "an operation does not end", "detail": "no answer", "op": scn["events"][-1:],
                    "got": "no answer", "want": "an answer"}, {"stats": {}}
        if tag != "ok":
            raise pool.ChildError("run ended: %s" % tag)
        bad, st = got
        if bad:
            bad = {"class": "mismatch", "label": bad[0], "detail": "after event %s" % bad[3], "op": scn["events"][-1:] if bad[3] is None
                   else scn["events"][bad[3]], "got": bad[1], "want": bad[2]}
        return bad, {"stats": st}

    def play(self, scn):
        try:
            w = self.world(scn)
        except Exception as e:  # noqa
            raise Wrong("the start raised %s: %s" % (type(e).__name__, e))
        r = iso.rng_of(scn["s"])
        for i, ev in enumerate(scn["events"]):
            try:
                getattr(w, "do_" + ev["do"])(ev)
                w.check(r)
            except Wrong as e:
                return [e.what, e.got, e.want, i], {}
            except Doubled as e:
                return [str(e), None, None, i], {}
        return None, dict(w.st)

    def block(self, seed, b, tier, over):
        st = collections.Counter()
        sigs, dig = [], []
        res = {"runs": 0, "violation": None, "sample": None}
        for i in range(self.per_block):
            if i and over():
                break
            scn = self.scenario(iso.rng_of(self.id, seed, b, i))
            bad, out = self.judge(scn)
            res["runs"] += 1
            for ev in scn["events"]:
                st["event " + ev["do"]] += 1
            for k, v in out["stats"].items():
                st[k] += v
            sigs.append(_hash(scn))
            dig.append(_hash([scn, bad]))
            if res["sample"] is None:
                res["sample"] = {"events": scn["events"][:4]}
            if bad:
                res.update(violation=bad, scenario=scn, run=[b, i])
                break
        res.update(stats=st, sigs=sigs, digest=_hash(dig))
        return res

    def shrink(self, scn):
        evs = scn["events"]
        for k in (len(evs) // 2, len(evs) // 4):
            if k > 1:
                for i in range(0, len(evs), k):
                    yield dict(scn, events=evs[:i] + evs[i + k:])
        for i in range(len(evs) - 1, -1, -1):
            yield dict(scn, events=evs[:i] + evs[i + 1:])
        for i, d in enumerate(scn.get("sources", [])):
            for k in d:
                yield dict(scn, sources=scn["sources"][:i] + [{n: v for n, v in d.items() if n != k}] + scn["sources"][i + 1:])


class C19(Data):
    id = "C19"
    rule = ("a run keeps 2-3 contents made of dictionaries or of one another and applies 6-30 assignments, deletions, readings and comparisons "
            "to them in seeded order, naming attributes in any letter case, with and without sub-attributes, schemas and extensions; some assignments "
            "are refused and some break off because the items of their value can not be fetched; after every event all contents are compared with the reference model; "
            "non-trivial: always; distinct: hash of the events")
    stubs = ["the application's handlers and their lazily fetched lists"]
    assumptions = ["values are scalars, lists of scalars and containers, and containers; dictionaries assigned as they are stay outside",
                   "an attribute is not given in two spellings at once"]

    def blocks(self, tier):
        return {"quick": 240, "thorough": 8000}[tier]

    def scenario(self, r):
        n = r.choice([2, 2, 3])
        return {"sources": [content(r) for _ in range(n)], "s": r.randrange(1 << 30),
                "events": [event(r, n) for _ in range(r.randint(*self.length))]}

    world = Contents


class C20(Data):
    id = "C20"
    rule = ("a run keeps 3-4 reports and applies 6-30 seeded additions, merges, extractions and removals between them, with locations as tuples and lists; "
            "after every event the issues of all reports and what they say about 14 locations are compared with the reference model; "
            "non-trivial: always; distinct: hash of the events")
    stubs = ["the validators that report issues"]
    assumptions = ["a report is not merged into itself", "a location does not contain a number and its text at the same place"]

    def blocks(self, tier):
        return {"quick": 240, "thorough": 8000}[tier]

    def scenario(self, r):
        n = r.choice([3, 3, 4])
        few = r.sample(LOCS, r.choice([2, 3, 5]))
        kinds = r.sample(range(len(ISSUES)), r.choice([2, 3, 5]))
        return {"n": n, "s": r.randrange(1 << 30), "events": [
            report_event(r, n, few, kinds) for _ in range(r.randint(*self.length))]}

    world = Reports


DATA = {"C19": C19, "C20": C20}
