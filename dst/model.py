"""Reference model of the service provider's side of the protocol, written from the tables of
spec.py and the documented behaviour.  It never touches the code under test.

Judgement of one message:  ("ok", value) | ("no", reason) | ("skip", reason)
"skip" marks messages about which the model has no opinion (see DESIGN.md): nothing is compared.
"""
import base64
from datetime import datetime
from urllib.parse import urlparse

from . import spec as S

ABSENT = object()


class No(Exception):
    """The message does not conform."""
    cat = None


class Presence(No):
    """... because something is there that must not be, or the other way round."""
    cat = "presence"


class Skip(Exception):
    """The model has no opinion."""


def judge(fn, *a, **k):
    try:
        return "ok", fn(*a, **k)
    except No as e:
        return "no", str(e), e.cat
    except Skip as e:
        return "skip", str(e)


# ------------------------------------------------------------------ lookup
def find(d, name):
    hits = [k for k in d if isinstance(k, str) and k.lower() == name.lower()]
    if len(hits) > 1:
        raise Skip("two spellings of one name in an object")
    return d[hits[0]] if hits else ABSENT


def sane(v, top=True, res=None):
    """Objects the model can read: string keys, no empty names, no ambiguous spellings."""
    if isinstance(v, dict):
        low = [k.lower() for k in v if isinstance(k, str)]
        if len(set(low)) != len(low):
            raise Skip("ambiguous names")
        for x in v.values():
            sane(x, False)
    elif isinstance(v, list):
        for x in v:
            sane(x, False)
    if top and res is not None and isinstance(v, dict):
        for k in v:
            if not isinstance(k, str):
                continue
            if k.lower() == res.core.lower() and not (v[k] is None or isinstance(v[k], dict)):
                raise Skip("core URN used as a name")



# ------------------------------------------------------------------ values
def scalar(a, v, direction):
    t = a.type
    if t == "any":
        return v
    if t in ("integer", "decimal"):
        if isinstance(v, bool):
            raise Skip("boolean as a number")
        if isinstance(v, float) and v != v or v in (float("inf"), float("-inf")):
            raise Skip("odd float")
        if t == "integer":
            if isinstance(v, float):
                if not v.is_integer():
                    raise No(a.name)
                return int(v)
            if not isinstance(v, int):
                raise No(a.name)
            return v
        if not isinstance(v, (int, float)):
            raise No(a.name)
        try:
            return float(v)
        except OverflowError:
            raise No(a.name)
    if t == "boolean":
        if not isinstance(v, bool):
            raise No(a.name)
        return v
    if t == "dateTime":
        if direction == "dump":
            if not isinstance(v, datetime):
                raise No(a.name)
            return v.isoformat()
        if not isinstance(v, str):
            raise No(a.name)
        try:
            return datetime.fromisoformat(v)
        except ValueError:
            raise No(a.name)
    if not isinstance(v, str):
        raise No(a.name)
    if t == "binary":
        try:
            raw = v.encode("ascii")
            if base64.b64encode(base64.b64decode(raw, validate=True)) != raw:
                raise No(a.name)
        except ValueError:
            raise No(a.name)
    elif t == "external":
        try:
            u = urlparse(v)
        except ValueError:
            raise No(a.name)
        if not u.scheme or not u.netloc:
            raise No(a.name)
    return v


def canonical(a, v):
    if not a.canonical or not a.enforced:
        return
    if isinstance(v, str) and not a.case_exact:
        if v.lower() not in [x.lower() for x in a.canonical]:
            raise No(a.name)
    elif v not in a.canonical:
        raise No(a.name)


HOOKED = ("serialNumber", "bench", "hostname")      # world.py: processors that reject "REJECT..."


def value(a, v, direction):
    if v is None:
        return None
    if a.mv:
        if not isinstance(v, list):
            raise No(a.name)
        out = [one(a, x, direction) for x in v]
        if a.type == "complex":
            if sum(1 for x in out if x.get("primary") is True) > 1:
                raise No(a.name + ": two primary values")
        return out
    out = one(a, v, direction)
    if a.name in HOOKED and isinstance(out, str) and out.startswith("REJECT"):
        raise No(a.name + ": refused by the application")
    if a.name == "id" and isinstance(out, str) and "bulkId" in out:
        raise No("bulkId is reserved")
    return out


def one(a, v, direction):
    if a.type != "complex":
        out = scalar(a, v, direction)
        canonical(a, out)
        return out
    if not isinstance(v, dict):
        raise No(a.name)
    out = {}
    for s in a.subs:
        x = find(v, s.name)
        if x is not ABSENT:
            out[s.name] = value(s, x, direction)
    return out


def empty(v):
    return v is ABSENT or v is None or v == "" or v == []


def resource(res, body, direction):
    """Content of a message body in canonical spelling (no presence rules)."""
    if not isinstance(body, dict):
        raise No("not an object")
    sane(body, True, res)
    ext = find(body, res.ext) if res.ext else ABSENT
    if ext is not ABSENT and ext is not None and not isinstance(ext, dict):
        raise No("extension is not an object")
    out = {}
    for a in res.attrs:
        v = find(body, a.name)
        if v is not ABSENT:
            out[a.name] = value(a, v, direction)
    if isinstance(ext, dict):
        part = {}
        for a in res.ext_attrs:
            v = find(ext, a.name)
            if v is not ABSENT:
                part[a.name] = value(a, v, direction)
        if part:
            out[res.ext] = part
    return out


def schemas_ok(res, out):
    listed = out.get("schemas")
    if not listed:
        return
    low = [x.lower() for x in listed]
    known = {res.core.lower()} | ({res.ext.lower()} if res.ext else set())
    if res.core.lower() not in low:
        raise No("main schema not listed")
    if any(x not in known for x in low):
        raise No("unknown schema listed")
    if res.ext and res.ext in out and res.ext.lower() not in low:
        raise No("extension not listed")


def get(res, out, a):
    if a.ext:
        part = out.get(a.ext)
        return part.get(a.name, ABSENT) if isinstance(part, dict) else ABSENT
    return out.get(a.name, ABSENT)


# ------------------------------------------------------------------ requests
def parse_write(res, body, method):
    """Body of a POST or PUT as the application must receive it."""
    out = resource(res, body, "parse")
    schemas_ok(res, out)
    for a in res.all():
        v = get(res, out, a)
        if a.required and empty(v) and not (method == "POST" and a.server):
            raise No(a.name + " missing")
        if a.type == "complex":
            need = [s for s in a.subs if s.required and not (method == "POST" and s.server)]
            for x in (v if isinstance(v, list) else [v] if isinstance(v, dict) else []):
                for s in need:
                    if empty(x.get(s.name, ABSENT)):
                        raise No("%s.%s missing" % (a.name, s.name))
    if method == "PUT":
        strip_read_only(res, out)
    return out


def strip_read_only(res, out):
    for a in res.all():
        home = out.get(a.ext) if a.ext else out
        if not isinstance(home, dict) or a.name not in home:
            continue
        if a.mutability == "readOnly":
            del home[a.name]
            continue
        v = home[a.name]
        for s in a.subs:
            if s.mutability == "readOnly":
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict):
                        x.pop(s.name, None)


def read_only_paths(res):
    """[(ext, attr, sub)] of everything a client may not modify."""
    out = []
    for a in res.all():
        if a.mutability == "readOnly":
            out.append((a.ext, a.name, None))
        else:
            out += [(a.ext, a.name, s.name) for s in a.subs if s.mutability == "readOnly"]
    return out


# ------------------------------------------------------------------ presence rules
class Wanted:
    """What the client asked to see: attributes=... or excludeAttributes=..."""

    def __init__(self, res, names, include):
        self.include = include
        self.tops, self.subs, self.vague = set(), set(), set()
        for n in names or []:
            hit = resolve(res, n)
            if hit:
                (self.subs if hit[2] else self.tops).add(hit)
                if ":" not in n and not hit[0]:
                    self.vague |= {(a.ext, a.name) for a in res.ext_attrs if a.name.lower() == hit[1].lower()}
                continue
            whole = resolve(res, n.rpartition(".")[0]) if "." in n.rpartition(":")[2] else None
            if whole:                       # a part this type's attribute of that name does not have
                self.vague.add(whole[:2])

    def listed(self, key):
        return key in self.tops or key in self.subs

    def covers(self, ext, attr, sub):
        """Requested directly, through its parent, or through one of its parts."""
        if (ext, attr, None) in self.tops:
            return True
        if sub:
            return (ext, attr, sub) in self.subs
        return any(k[:2] == (ext, attr) for k in self.subs)


def resolve(res, name):
    """(ext, attr, sub) in canonical spelling, or None when the schema has no such attribute."""
    pre, _, rest = name.rpartition(":")
    attr, _, sub = rest.partition(".")
    pools = [res.attrs, res.ext_attrs]
    if pre:
        pools = [res.attrs] if pre.lower() == res.core.lower() else \
            [res.ext_attrs] if res.ext and pre.lower() == res.ext.lower() else []
    for pool in pools:
        for a in pool:
            if a.name.lower() == attr.lower():
                if not sub:
                    return (a.ext, a.name, None)
                s = a.sub(sub)
                return (a.ext, a.name, s.name) if s else None
    return None


def response_presence(res, out, wanted):
    """Required content is there and nothing is that must not be."""
    for a in res.all():
        v = get(res, out, a)
        _presence(a, a.ext, a.name, None, v, wanted)
        if not a.subs:
            continue
        if v is ABSENT or v is None:
            continue
        for x in v if a.mv else [v]:
            for s in a.subs:
                _presence(s, a.ext, a.name, s.name, x.get(s.name, ABSENT), wanted)


def _presence(a, ext, attr, sub, v, wanted):
    key = (ext, attr, sub)
    inc = wanted.include if wanted else None
    if wanted and (ext, attr) in wanted.vague:
        raise Skip("it is not clear whether this attribute was named")
    if not empty(v):
        if a.returned == "never":
            raise Presence("%s is never returned" % (key,))
        if a.returned == "request" and (not wanted or inc is not True or not wanted.covers(*key)):
            raise Skip("returned on request only")
        if a.returned == "always":
            return
        if inc is False and wanted.listed(key):
            raise Presence("%s was excluded" % (key,))
        if inc is True and not wanted.covers(*key):
            raise Presence("%s was not requested" % (key,))
    elif a.required:
        if inc is None or (inc is False and not wanted.listed(key)) or (
                inc is True and wanted.listed(key)) or a.returned == "always":
            raise Presence("%s missing" % (key,))


# ------------------------------------------------------------------ responses
def dump_resource(res, body):
    """Content of a response resource: types, schemas, resource type."""
    out = resource(res, body, "dump")
    schemas_ok(res, out)
    m = out.get("meta")
    if isinstance(m, dict) and "resourceType" in m and m["resourceType"] != res.name:
        raise No("resource type")
    return out


def dump_object(res, kind, body, status, headers, wanted):
    """Response to GET/PUT/PATCH/POST of one resource."""
    headers = headers or {}
    if kind == "post" and not body:
        raise Skip("empty answer to POST")
    if kind == "patch" and status == 204:
        if wanted and (wanted.tops or wanted.subs):
            raise No("attributes were requested: 200 required")
        return None
    out = dump_resource(res, body)
    if status != (201 if kind == "post" else 200):
        raise No("status")
    response_presence(res, out, wanted)
    loc = headers.get("Location")
    if kind == "post" and "Location" not in headers:
        raise No("Location header required")
    if loc is not None:
        m = out.get("meta")
        if not isinstance(m, dict) or m.get("location") != loc:
            raise No("Location differs from meta.location")
    return out


SCIM_TYPES = {"invalidfilter", "toomany", "uniqueness", "mutability", "invalidsyntax", "invalidpath",
              "notarget", "invalidvalue", "invalidvers", "sensitive"}


def dump_error(body, status):
    if not isinstance(body, dict):
        raise No("not an object")
    sane(body)
    out = {}
    for n in ("schemas", "status", "scimType", "detail"):
        v = find(body, n)
        if v is ABSENT:
            continue
        if n == "schemas":
            v = value(S.A("schemas", "uri", "m"), v, "dump")
        else:
            v = value(S.A(n, "string"), v, "dump")
            if n == "scimType" and v is not None and v.lower() not in SCIM_TYPES:
                raise No("scimType")
        out[n] = v
    message_schemas(out, "Error")
    if empty(out.get("status")):
        raise No("status missing")
    if out["status"] != str(status):
        raise No("status differs")
    if not 200 <= status < 600:
        raise No("not a status")
    return out


def message_schemas(out, name):
    listed = out.get("schemas")
    if empty(listed):
        raise No("schemas missing")
    if [x.lower() for x in listed if x.lower() != (S.MSG + name).lower()]:
        raise No("unknown schema listed")


LISTS = {"totalResults": S.A("totalResults", "integer", "r"), "startIndex": S.A("startIndex", "integer"),
         "itemsPerPage": S.A("itemsPerPage", "integer")}


def dump_list(ress, body, status, wanted, flt, sort, count, start):
    """A list response.  flt: condition tree, sort: (name, ascending)."""
    if not isinstance(body, dict):
        raise No("not an object")
    sane({k: v for k, v in body.items() if str(k).lower() != "resources"})
    out = {}
    v = find(body, "schemas")
    if v is not ABSENT:
        out["schemas"] = value(S.A("schemas", "uri", "m"), v, "dump")
    for n, a in LISTS.items():
        v = find(body, n)
        if v is not ABSENT:
            out[n] = value(a, v, "dump")
    message_schemas(out, "ListResponse")
    if empty(out.get("totalResults")):
        raise No("totalResults missing")
    if status != 200:
        raise No("status")
    if (out.get("startIndex") or 0) > start:
        raise No("startIndex beyond the one requested")
    rs = find(body, "Resources")
    n = 0
    items = []
    if rs is not ABSENT:
        if not isinstance(rs, list):
            raise No("Resources is not a list")
        n = len(rs)
        if out.get("itemsPerPage") is not None and out["itemsPerPage"] != n:
            raise No("itemsPerPage differs from the number of resources")
        for x in rs:
            res = type_of(ress, x)
            items.append((res, dump_resource(res, x)))
        out["Resources"] = [x for _, x in items]
    total = out["totalResults"]
    if total < n:
        raise No("totalResults too small")
    if count is None and total > n:
        raise No("resources missing")
    if count is not None and n > count:
        raise No("more resources than asked for")
    if (count or 0) > 0 and total > n:
        if out.get("startIndex") is None or out.get("itemsPerPage") is None:
            raise No("page without startIndex or itemsPerPage")
    doubt = None
    if flt is not None:
        for res, x in items:
            m = holds(res, flt, x, False)
            if m is None:
                doubt = "filter over data that is not there"
            elif not m:
                raise No("resource does not match the filter")
    if sort is not None and items:
        s = in_order(items, *sort)
        if s is None:
            doubt = "sort over odd values"
        elif not s:
            raise No("not sorted")
    for res, x in items:
        try:
            response_presence(res, x, wanted(res) if wanted else None)
        except Skip as e:
            doubt = str(e)
    if doubt:
        raise Skip(doubt)
    return out


def type_of(ress, x):
    if not isinstance(x, dict):
        raise No("not a resource")
    if len(ress) == 1:
        return ress[0]
    sane(x)
    listed = find(x, "schemas")
    if not isinstance(listed, list) or not listed or not all(isinstance(y, str) for y in listed):
        raise No("unknown resource type")
    low = {y.lower() for y in listed}
    for res in ress:
        if low <= {res.core.lower(), (res.ext or res.core).lower()}:
            return res
    raise No("unknown resource type")


# ------------------------------------------------------------------ conditions
# ("and"|"or", [..]) ("not", c) ("pr", name) ("cmp", op, name, literal) ("in", name, c)
def holds(res, c, x, strict):
    """True, False, or None when the data does not decide (x is JSON content, canonical spelling)."""
    free = "not" not in ops_of(c)
    return _holds(res, c, x, strict if free else None)


def ops_of(c):
    if c[0] in ("and", "or"):
        return {c[0]}.union(*[ops_of(k) for k in c[1]])
    if c[0] in ("not",):
        return {"not"} | ops_of(c[1])
    if c[0] == "in":
        return {"in"} | ops_of(c[2])
    return {c[0]}


def _holds(res, c, x, strict):
    if c[0] == "and":
        got = [_holds(res, k, x, strict) for k in c[1]]
        return False if False in got else None if None in got else True
    if c[0] == "or":
        got = [_holds(res, k, x, strict) for k in c[1]]
        return True if True in got else None if None in got else False
    if c[0] == "not":
        got = _holds(res, c[1], x, strict)
        return None if got is None else not got
    name = c[1] if c[0] in ("pr", "in") else c[2]
    hit = resolve(res, name)
    if hit is None or hit[0] and ":" not in name:
        return None
    ext, attr, sub = hit
    a = next(y for y in res.all() if (y.ext, y.name) == (ext, attr))
    v = get(res, x, a)
    if c[0] == "in" and a.type != "complex":
        return None
    if c[0] == "in" or sub:
        inner = c[2] if c[0] == "in" else (
            ("pr", sub) if c[0] == "pr" else ("cmp", c[1], sub, c[3]))
        return inside(a, v, inner, strict)
    return atom(a, v, c, strict)


def inside(a, v, c, strict):
    items = v if isinstance(v, list) else [v] if isinstance(v, dict) else None
    if items is None or (a.mv and not items):
        if strict is None:
            return None
        if strict:
            return False
        return None
    got = [_inner(a, c, it, strict) for it in items]
    return True if True in got else None if None in got else False


def _inner(a, c, it, strict):
    if c[0] in ("and", "or"):
        got = [_inner(a, k, it, strict) for k in c[1]]
        if c[0] == "and":
            return False if False in got else None if None in got else True
        return True if True in got else None if None in got else False
    if c[0] == "not":
        got = _inner(a, c[1], it, strict)
        return None if got is None else not got
    name = c[1] if c[0] == "pr" else c[2]
    s = a.sub(name) if isinstance(name, str) else None
    if s is None:
        return None
    v = it.get(s.name, ABSENT)
    if (v is ABSENT or v is None) and strict is False and c[0] == "cmp":
        return None                         # depends on the other items
    return atom(s, v, c, strict)


def atom(a, v, c, strict):
    if c[0] == "pr":
        if a.type == "complex":
            if not a.mv:
                return None
            if not isinstance(v, list):
                return False if strict else None
            vals = [i.get("value", ABSENT) for i in v]
            if any(not empty(y) and y for y in vals):
                return True
            return None if any(y in (0, 0.0) for y in vals) else False      # 0 and false: no opinion
        if v is ABSENT or v is None:
            return False if strict else None
        if isinstance(v, list):
            if any(bool(i) for i in v):
                return True
            return None if any(i in (0, 0.0) for i in v) else False
        return v != ""
    if v is ABSENT or v is None:
        return None if strict is None else False if strict else True
    op, lit = c[1], c[3]
    if a.type == "complex":
        s = a.sub("value")
        if not a.mv or s is None or s.mv or s.type in ("binary", "boolean", "dateTime", "any", "complex"):
            return None
        vals = [i.get("value", ABSENT) for i in v]
        if any(y is ABSENT or y is None for y in vals):
            return None
        exact = False
        kind = s.type if s.type in ("integer", "decimal") else "string"
    else:
        vals = v if isinstance(v, list) else [v]
        exact = a.case_exact
        kind = a.type
    return compare(kind, exact, op, vals, lit)


def compare(kind, exact, op, vals, lit):
    if kind in ("string", "external", "uri", "scimref", "binary"):
        if not isinstance(lit, str):
            return None
        if kind == "binary" and op not in ("eq", "ne"):
            return None
        if kind in ("external", "uri", "scimref") and op in ("gt", "ge", "lt", "le"):
            return None
        if not exact:
            vals, lit = [y.lower() for y in vals], lit.lower()
    elif kind in ("integer", "decimal"):
        if isinstance(lit, bool) or not isinstance(lit, (int, float)) or op in ("co", "sw", "ew"):
            return None
    elif kind == "boolean":
        if not isinstance(lit, bool) or op not in ("eq", "ne"):
            return None
    elif kind == "dateTime":
        if not isinstance(lit, str) or op in ("co", "sw", "ew"):
            return None
        try:
            lit = datetime.fromisoformat(lit)
            vals = [y if isinstance(y, datetime) else datetime.fromisoformat(y) for y in vals]
        except ValueError:
            return None
        if op not in ("eq", "ne"):           # with and without time zone: neither before nor after
            vals = [y for y in vals if (y.tzinfo is None) == (lit.tzinfo is None)]
    f = {"eq": lambda p, q: p == q, "ne": lambda p, q: p != q, "co": lambda p, q: q in p,
         "sw": lambda p, q: p.startswith(q), "ew": lambda p, q: p.endswith(q),
         "gt": lambda p, q: p > q, "ge": lambda p, q: p >= q, "lt": lambda p, q: p < q,
         "le": lambda p, q: p <= q}[op]
    return any(f(p, lit) for p in vals)


# ------------------------------------------------------------------ order
def sort_key(res, x, name):
    """Comparable key, ABSENT, or Skip."""
    hit = resolve(res, name)
    if hit is None:
        return ABSENT
    if hit[0] and ":" not in name:
        raise Skip("extension attribute without its URN")
    ext, attr, sub = hit
    a = next(y for y in res.all() if (y.ext, y.name) == (ext, attr))
    v = get(res, x, a)
    if sub:
        s = a.sub(sub)
        if a.mv:
            raise Skip("sort by a part of a multi-valued attribute")
        if s.mv:
            raise Skip("sort by a multi-valued part")
        v = v.get(s.name, ABSENT) if isinstance(v, dict) else ABSENT
        a = s
    elif a.type == "complex":
        if not a.mv:
            raise Skip("sort by a complex attribute")
        s = a.sub("value")
        if v is ABSENT:
            return ABSENT
        if v is None:
            return ABSENT
        prim = [i for i in v if i.get("primary") is True]
        if not prim:
            return ABSENT
        if s is None:
            return ABSENT
        if s.mv:
            raise Skip("sort by a multi-valued part")
        v, a = prim[0].get("value", ABSENT), s
    elif a.mv:
        if v is ABSENT or not v:
            return ABSENT
        v = v[0]
    if v is ABSENT or v is None or v == "":
        return ABSENT
    if isinstance(v, str):
        if a.type != "string":
            raise Skip("order of this type is not defined")
        return Text(v, a.case_exact)
    return v


class Text:
    """Letter case counts where either attribute says so."""

    def __init__(self, v, exact):
        self.v, self.exact = v, exact

    def __lt__(self, other):
        if self.exact or other.exact:
            return self.v < other.v
        return self.v.lower() < other.v.lower()


def in_order(items, name, asc):
    try:
        keys = [sort_key(res, x, name) for res, x in items]
    except Skip:
        return None
    have = [k for k in keys if k is not ABSENT]
    if len({type(k) is Text for k in have}) > 1:
        return None
    if not have:
        return True

    def before(p, q):
        if p is ABSENT or q is ABSENT:
            return p is not ABSENT and q is ABSENT
        return p < q
    pairs = list(zip(keys, keys[1:]))
    if all(not before(q, p) for p, q in pairs) if asc else all(not before(p, q) for p, q in pairs):
        return True
    if type(have[0]) is Text and len(have) > 2 and len({k.exact for k in have}) > 1:
        return None                          # no order is right: upper/lower case counts for some pairs only
    return False


# ------------------------------------------------------------------ patch
def parse_patch(res, body, paths):
    """[(op, target, condition, value)]: target (ext, attr, sub) or None; condition of a value path.
    `paths` gives the meaning of path texts: {text: (name, condition, part)}."""
    if not isinstance(body, dict):
        raise No("not an object")
    sane({k: v for k, v in body.items() if str(k).lower() != "operations"})
    listed = find(body, "schemas")
    out = {}
    if listed is not ABSENT:
        out["schemas"] = value(S.A("schemas", "uri", "m"), listed, "parse")
    message_schemas(out, "PatchOp")
    ops = find(body, "Operations")
    if empty(ops):
        raise No("Operations missing")
    if not isinstance(ops, list):
        raise No("Operations is not a list")
    return [patch_operation(res, o, paths) for o in ops]


def patch_operation(res, o, paths):
    if not isinstance(o, dict):
        raise No("operation is not an object")
    low = [k.lower() for k in o]
    if len(set(low)) != len(low):
        raise Skip("ambiguous names")
    kind = find(o, "op")
    if kind is ABSENT or kind is None or kind == "":
        raise No("op missing")
    if not isinstance(kind, str) or kind.lower() not in ("add", "remove", "replace"):
        raise No("op")
    kind = kind.lower()
    path = find(o, "path")
    v = find(o, "value")
    if path is not ABSENT and path is not None and not isinstance(path, str):
        raise No("path")
    if path is ABSENT or path is None:
        if kind == "remove":
            raise No("remove without path")
        if empty(v) and v not in ("", []):
            raise No("value missing")
        if not isinstance(v, dict):
            raise No("value is not an object")
        out = resource(res, v, "parse")
        for e, at, sub in read_only_paths(res):
            home = out.get(e) if e else out
            x = home.get(at, ABSENT) if isinstance(home, dict) else ABSENT
            if sub and x is not ABSENT:
                for i in (x if isinstance(x, list) else [x]):
                    if isinstance(i, dict) and sub in i:
                        raise No("%s is read-only" % sub)
            elif x is not ABSENT:
                raise No("%s is read-only" % at)
        for a in res.all():
            x = get(res, out, a)
            if a.required and empty(x) and x is not ABSENT:
                raise Skip("required attribute set to nothing")
            whole_items(a, x)
        return (kind, None, None, out)
    target, cond = read_path(res, path, paths)
    ext, attr, sub = target
    a = next(y for y in res.all() if (y.ext, y.name) == (ext, attr))
    t = a.sub(sub) if sub else a
    if "readOnly" in (a.mutability, t.mutability):
        raise No("%s is read-only" % path)
    if kind == "remove":
        if t.required:
            if t.type == "complex":
                raise Skip("required complex attribute removed")
            raise No("%s is required" % path)
        return (kind, target, cond, None)
    if kind == "add":
        if v is ABSENT or v is None:
            raise No("value missing")
        if cond and not sub:
            raise No("add to filtered items")
    if v is ABSENT:
        raise No("value missing")
    out = value(t, v, "parse")
    if t.required and empty(out):
        raise Skip("required attribute set to nothing")
    if t.type == "complex":
        for i in (out if isinstance(out, list) else [out] if isinstance(out, dict) else []):
            for s in t.subs:
                if s.mutability == "readOnly" and s.name in i:
                    raise No("%s is read-only" % s.name)
        whole_items(t, out)
    return (kind, target, cond, out)


def whole_items(a, x):
    if a.type == "complex" and a.mv and isinstance(x, list):
        for i in x:
            for s in a.subs:
                if s.required and not s.server and empty(i.get(s.name, ABSENT)):
                    raise No("%s.%s missing" % (a.name, s.name))


def read_path(res, text, paths):
    """Paths the traffic generator made come with their meaning; anything else is not judged."""
    if text not in paths:
        raise Skip("path changed in transit")
    name, cond, sub = paths[text]
    hit = resolve(res, name)
    if hit is None or (sub and hit[2]):
        raise No("no such attribute")
    ext, attr, s = hit
    if sub:
        a = next(y for y in res.all() if (y.ext, y.name) == (ext, attr))
        if a.sub(sub) is None:
            raise No("no such attribute")
        s = a.sub(sub).name
    return (ext, attr, s), cond
