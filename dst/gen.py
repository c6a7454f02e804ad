"""Seeded generation of the traffic of a simulated deployment.

Everything a generator returns is a JSON-able *spec*; `ops.decode` turns it into fresh Python
objects for each execution.  Tags: {"$dt": iso} a datetime, {"$c": {...}} a data container,
{"$nan": 1} / {"$inf": 1} odd floats.
"""
import base64
import copy
import json
import re

from . import spec as S

WORDS = ["alice", "Alice", "ALICE", "bob", "Bob", "carol", "dave", "eve", "x", "a b", "ß-Straße",
         "o'hara", "née", "0", "true", "null", "work", "home", "Zoë", "élan", "aa", "AA", "aA"]
URLS = ["https://example.com/a", "https://example.com/B", "http://h/p?q=1", "ldap://srv/x"]
DTS = ["2020-01-02T03:04:05+00:00", "2021-06-30T23:59:59.123456+00:00", "1999-12-31T00:00:00",
       "2024-02-29T12:00:00-07:30", "2020-01-02T03:04:05", "2020-01-02T04:04:05+03:00", "2020-01-02T02:04:05-05:00",
       "2020-01-02T08:34:05+05:30", "2021-06-30T23:59:59.123457+00:00", "2021-06-30T23:59:59+00:00"]
INTS = [0, 1, 2, 7, 10, 42, 100, -3, 2 ** 40, 2 ** 53, 2 ** 53 + 1]
DECS = [0.5, 1.0, 2.25, -1.5, 10.0, 0.5000000001, 2.2499999]
B64 = [base64.b64encode(s).decode() for s in (b"", b"a", b"hello", b"\x00\xff\x10", b"pyscim!")]
IDS = ["r1", "r2", "R1", "2819c223", "x y"]


LONG = "long " * 200
EDGE = {                    # unusual but valid
    "string": [" ", " x ", "a\nb", "\u0130stanbul", "\u1e9e", "\U0001f600", "e\u0301", "\u00e9", LONG, "x" * 33, "a,b",
               'say "hi"', "back\\slash", "\t", "-", "None", "{}", "[]", "a/b", "urn:a:b", "b.c", "$ref", "\u202e", "\ufb01", "|&PLACE_HOLDER_0&|", "|&PLACE_HOLDER_13&|",
               "a\r\nb", "\r", "x\x00y", "\u00a0x\u00a0", "\ufeffx", "x ", "%41%2f", "&amp;<b>", "\uff11\uff12", "\x7f", "\\n",
               "z" * 4100, "a+b", "1e5", "\ud83d", "x  y"],
    "integer": [1.0, -0.0, 2.0 ** 60, 2 ** 63, -2 ** 63, 10 ** 25, 1e15],
    "decimal": [-0.0, 1e-9, 2 ** 53 + 1, 1e300, 123456789.123456789, -7],
    "external": ["https://[::1]/x", "https://h:99999/x", "HTTPS://EXAMPLE.com", "x://y", "https://u:p@h/#f", "https://h/%zz",
                 "https://\u00e9.example/\u00e9", "https://h/a b", " https://h/x", "https://h:/x"],
    "uri": ["", " ", "a b", "https://[::1/x", "/relative", "urn:", "#"],
    "scimref": ["https://example.com/v2/Users/1", "Users/1", "x", "../Groups/2"],
    "binary": ["AAAA", "+/+/", "A" * 64, "QQ=="],
}
WRONG = {                   # near misses: each looks right to a careless check
    "string": [1, True, ["x"], {"a": 1}, 1.5, 0, False, [], {}, ["x", "y"]],
    "integer": ["1", 1.5, [1], {}, "", " 1", "0x1", 1e-9, "1.0", [], -0.5],
    "decimal": ["1.5", [1.0], {}, "", "1", "nan", [], "1e5", 10 ** 400],
    "boolean": ["true", 1, 0, [], "", "false", 0.0, 1.0, "True", {}],
    "dateTime": [5, "x", "", "2020-13-01T00:00:00", "2020-02-30T00:00:00", "2020-01-01T25:00:00",
                 "2020-01-01T00:00:00+99:00", "01/02/2020", [], {}, 1577836800, "2020-01-01T", True, "yesterday"],
    "binary": [1, "a", "\u00e9", "YQ", "YQ===", "YQ==\n", "Y Q==", "====", "YQ=", "YR==", "YQ-_", [], True, "YQ==YQ=="],
    "external": ["x", 1, "/a/b", "a:b", "", "//host/x", "https://", "https:/h", "https://[::1/x", "://h", "http:h", [], "mailto:a@b",
                 "https://[x]/", "https://]/", "h.com/x", "https://[::1]x/", "https://\u2100.com/"],
    "uri": [1, ["x"], True, {}],
    "scimref": [1, {}, True, ["x"]],
    "complex": ["x", 1, [1], True, [], "", 0, [{}]],
}


def word(r):
    return r.choice(WORDS)


def case(r, s, p=0.15):
    if r.random() < p:
        return r.choice([s.lower(), s.upper(), s.swapcase()])
    return s


# ---------------------------------------------------------------------------- valid values
def scalar(r, a, direction):
    t = a.type
    if a.enforced:
        v = r.choice(a.canonical)
        return case(r, v, 0.2) if isinstance(v, str) and not a.case_exact else v
    if r.random() < 0.06 and t in EDGE:
        return r.choice(EDGE[t])
    if t == "string":
        if a.canonical and (a.enforced or r.random() < 0.7):
            v = r.choice(a.canonical)
            return v if a.case_exact else case(r, v, 0.2)
        return word(r) if r.random() < 0.85 else word(r) + str(r.randrange(4))
    if t == "integer":
        return r.choice(INTS)
    if t == "decimal":
        return r.choice(DECS) if r.random() < 0.7 else r.choice(INTS)
    if t == "boolean":
        return r.random() < 0.5
    if t == "dateTime":
        v = r.choice(DTS)
        return v if direction == "parse" else {"$dt": v}
    if t == "binary":
        return r.choice(B64)
    if t == "external":
        return r.choice(URLS)
    if t == "uri":
        return r.choice(URLS + ["urn:x:y"])
    if t == "scimref":
        return "../Users/" + r.choice(IDS)
    raise AssertionError(t)


def many(r, few):
    """A number of items: a few, seldom many."""
    return r.choice(few) if r.random() < 0.99 else r.choice([9, 11, 17, 26, 35, 70])


def value(r, a, direction, kc=0.15, full=0.6):
    """A valid value of attribute `a` (None never)."""
    if a.type == "complex":
        if not a.mv:
            return item(r, a, direction, kc, full)
        n = many(r, [1, 1, 2, 3] if a.required else [0, 1, 1, 2, 3])
        items = [item(r, a, direction, kc, full) for _ in range(n)]
        seen = False
        for it in items:                       # at most one primary
            for k in [k for k in it if k.lower() == "primary"]:
                if it[k] is True:
                    if seen:
                        it[k] = False
                    seen = True
        return items
    if a.mv:
        return [scalar(r, a, direction) for _ in range(many(r, [1, 2, 3] if a.required else [0, 1, 2, 3]))]
    return scalar(r, a, direction)


def item(r, a, direction, kc=0.15, full=0.6):
    out = {}
    for s in a.subs:
        if direction == "dump" and s.returned == "never":
            continue
        if s.required and not (direction == "parse" and s.server and r.random() < 0.6) or r.random() < full:
            out[case(r, s.name, kc)] = value(r, s, direction, kc)
    if not out and a.subs:
        s = r.choice([s for s in a.subs if direction != "dump" or s.returned != "never"] or a.subs)
        out[s.name] = value(r, s, direction, kc)
    return out


CORES = (S.CORE_USER, S.CORE_GROUP, S.CORE_DEVICE)
NESTED = [{}, {"userName": "nested", "displayName": "nested"}, {"schemas": ["urn:x"], "id": "nested"}, {"meta": {"resourceType": "x"}},
          {"emails": [{"value": 1}], "members": 5}, None]


def resource(r, res, direction="parse", kc=0.15, density=None, server=None, skip=()):
    """A valid resource.  `server`: include server-issued/read-only attributes."""
    if density is None:
        density = r.choice([0.1, 0.25, 0.5, 0.8])
    if server is None:
        server = direction == "dump"
    body = {}
    ext = {}
    for a in res.attrs:
        if a.name in ("schemas",) or a.name in skip:
            continue
        if direction == "dump" and a.returned == "never":
            continue
        ro = a.mutability == "readOnly"
        if a.name == "meta":
            continue
        if a.required and (server or not a.server):
            body[case(r, a.name, kc)] = value(r, a, direction, kc)
            continue
        if ro and not server:
            continue
        if r.random() < density:
            body[case(r, a.name, kc)] = value(r, a, direction, kc)
    for a in res.ext_attrs:
        if a.name in skip or direction == "dump" and a.returned == "never":
            continue
        if a.required or r.random() < density:
            ext[case(r, a.name, kc)] = value(r, a, direction, kc)
    schemas = [case(r, res.core, kc)]
    if ext and res.ext:
        body[res.ext] = ext
        schemas.append(case(r, res.ext, kc))
    if server:
        rid = r.choice(IDS)
        for k in [k for k in body if k.lower() == "id"]:
            body[k] = rid
        meta = {
            "resourceType": res.name, "location": location(res, rid),
            "version": 'W/"%d"' % r.randrange(4),
        }
        if r.random() < 0.7:
            v = r.choice(DTS)
            meta["created"] = v if direction == "parse" else {"$dt": v}
            meta["lastModified"] = v if direction == "parse" else {"$dt": v}
        body[case(r, "meta", kc)] = meta
    body[case(r, "schemas", kc)] = schemas
    if direction == "parse" and not server and r.random() < 0.06:        # members that mean nothing
        k = r.choice(["xtra", "urn:x:unknown:ext", "$x", case(r, res.core, 0.3)])
        body[k] = copy.deepcopy(r.choice(NESTED if k.lower() == res.core.lower() else [1, "x", None, [], {}, [{}], {"value": 1}]))
    keys = list(body)
    r.shuffle(keys)
    return {k: body[k] for k in keys}


def location(res, rid):
    return "https://example.com/v2/%s/%s" % (res.plural, rid)


def get_key(d, name):
    for k in d:
        if isinstance(k, str) and k.lower() == name.lower():
            return k
    return None


# ---------------------------------------------------------------------------- damage
JUNK = [None, 0, 1, -1, 1.5, "", "x", "true", True, False, [], {}, [None], [1], [[]], {"a": 1},
        {"value": 1}, [{"value": None}], "é", "\x00", "a.b", "REJECT me", {"": 1}, ["x", 2, None],
        {"$dt": DTS[0]}, 10 ** 30, "1e400", [{}], [{"primary": True}, {"primary": True}]]
JUNK = JUNK + ["https://[::1/x", "YQ==\n", "\u0130", "\ud800", "0", "00", " ", [""], {"value": {"value": 1}}, [[{}]],
               {"$ref": 1}, "2020-02-30T00:00:00", 1e308, -1e-320, [None, {}], "urn:", {"schemas": None}, "|&|"]
JUNK_ODD = JUNK + [{"$nan": 1}, {"$inf": 1}]


def paths(v, pre=()):
    out = [pre]
    if isinstance(v, dict) and not any(k.startswith("$") and len(v) == 1 for k in v):
        for k in v:
            out += paths(v[k], pre + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            out += paths(v[i], pre + (i,))
    return out


def put_at(v, path, new):
    v = json.loads(json.dumps(v))
    if not path:
        return new
    cur = v
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = new
    return v


def get_at(v, path):
    for p in path:
        v = v[p]
    return v


def del_at(v, path):
    v = json.loads(json.dumps(v))
    cur = v
    for p in path[:-1]:
        cur = cur[p]
    del cur[path[-1]]
    return v


ODD_NUMBERS = ["1e400", "-1e999", "inf", "-Infinity", "nan", "9" * 400, "9" * 5000, "1_0", "0x1f", ".5", "1.", "+1", "--1", "1e", "\uff11",
               "9007199254740993", "1e-400", "True", "NULL", "'", "''", "\"x'"]


def odd_literal(r, text):
    """The text with one of its literals replaced by something odd, or with one more comparison."""
    ms = list(re.finditer(r'"[^"]*"|\b\d+\b|\b(?:true|false|null)\b', text))
    if not ms:
        return "%s eq %s" % (text, r.choice(ODD_NUMBERS))
    m = r.choice(ms)
    return text[:m.start()] + r.choice(ODD_NUMBERS) + text[m.end():]


def damage(r, v, n=None, junk=JUNK):
    """Corrupt a message in flight: structural damage at 1-3 random positions."""
    for _ in range(n or r.choice([1, 1, 1, 2, 3])):
        ps = paths(v)
        p = r.choice(ps) if r.random() < 0.97 else ()
        kind = r.randrange(9)
        if not p and kind not in (0, 1):
            p = r.choice(ps)
        if kind in (0, 1, 2) or not p:
            v = put_at(v, p, r.choice(junk))
        elif kind == 3:
            v = del_at(v, p)
        elif kind == 4:                                     # wrap / unwrap
            old = get_at(v, p)
            v = put_at(v, p, [old] if not isinstance(old, list) else (old[0] if old else None))
        elif kind == 5:                                     # move to another place
            q = r.choice(ps)
            v = put_at(v, p, json.loads(json.dumps(get_at(v, q))))
        elif kind == 6:                                     # rename a key
            old = get_at(v, p)
            v = del_at(v, p)
            if isinstance(p[-1], str):
                v = put_at(v, p[:-1] + (r.choice([
                    p[-1].upper(), p[-1] + "x", "", "schemas", "primary", "id", "meta", "name",
                    "emails", "Operations", S.CORE_USER, S.ENT_USER, S.CORE_DEVICE, S.EXT_LAB,
                    S.CORE_USER.lower(), "path", "value", "op", "$ref", "members", "type",
                ]),), old)
        elif kind == 7:                                     # duplicate a list element
            old = get_at(v, p)
            if isinstance(old, list) and old:
                v = put_at(v, p, old + [json.loads(json.dumps(old[0]))])
            else:
                v = put_at(v, p, r.choice(junk))
        else:                                               # change a string
            old = get_at(v, p)
            if isinstance(old, str):
                i = r.randrange(len(old) + 1)
                v = put_at(v, p, r.choice([
                    old[:i], old[i:], old[:i] + r.choice("\x00é\"'[](). ,:/|$") + old[i:],
                    old.upper(), old.lower(), "", old + old, odd_literal(r, old),
                ]))
            else:
                v = put_at(v, p, r.choice(junk))
    return v


# ---------------------------------------------------------------------------- filters
CMP = ["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"]


def lit(r, a):
    if r.random() < 0.08:
        return r.choice(["true", "null", "1", '"x"', "false", "1.5"])
    t = a.type
    if t == "integer":
        return str(r.choice(INTS))
    if t == "decimal":
        return repr(r.choice(DECS))
    if t == "boolean":
        return r.choice(["true", "false"])
    if t == "dateTime":
        return '"%s"' % r.choice(DTS)
    if t == "binary":
        return '"%s"' % r.choice(B64)
    if t in ("uri", "external", "scimref"):
        return '"%s"' % r.choice(URLS)
    w = word(r)
    q = "'" if ('"' in w or (r.random() < 0.15 and "'" not in w)) else '"'
    return q + w + q


def attr_expr(r, res, a=None, top=None, kc=0.2):
    pre = ""
    if top is None:
        if a.ext:
            pre = a.ext + ":"
        elif r.random() < 0.12:
            pre = res.core + ":"
    return pre + case(r, a.name, kc)


def filt(r, res, depth=0, inner=None, kc=0.2):
    """A filter expression over `res` (or over the sub-attributes of `inner`)."""
    x = r.random()
    if depth < 3 and x < 0.38:
        op = case(r, r.choice(["and", "or"]), 0.02)
        n = r.choice([2, 2, 3])
        parts = [filt(r, res, depth + 1, inner, kc) for _ in range(n)]
        parts = ["(%s)" % p if r.random() < 0.4 else p for p in parts]
        return (" %s " % op).join(parts)
    if depth < 3 and x < 0.48:
        return "%s (%s)" % (case(r, "not", 0.02), filt(r, res, depth + 1, inner, kc))
    pool = inner.subs if inner else [a for a in res.all()]
    a = r.choice(pool)
    if a.type == "complex":
        if a.mv and r.random() < 0.5 and a.subs:
            return "%s[%s]" % (attr_expr(r, res, a, inner, kc), filt(r, res, 2, a, kc))
        if r.random() < 0.2:
            return attr_expr(r, res, a, inner, kc) + " pr"
        s = r.choice(a.subs)
        name = attr_expr(r, res, a, inner, kc) + "." + case(r, s.name, kc)
        a = s
    else:
        name = attr_expr(r, res, a, inner, kc)
    if r.random() < 0.15:
        return name + " " + case(r, "pr", 0.2)
    if a.type == "boolean":
        op = r.choice(["eq", "ne"])
    elif a.type in ("integer", "decimal", "dateTime"):
        op = r.choice(["eq", "ne", "gt", "ge", "lt", "le"])
    else:
        op = r.choice(CMP)
    return "%s %s %s" % (name, case(r, op, 0.1), lit(r, a))


def literal_of(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, dict) and "$dt" in v:
        v = v["$dt"]
    if not isinstance(v, str) or '"' in v or "\\" in v:
        return None
    return '"%s"' % v


def fitting(r, res, data, kc=0.2):
    """A filter that speaks about what is in `data`: it has a good chance to match."""
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        pool = [a for a in res.all() if not a.ext and get_key(data, a.name) in data and data[get_key(data, a.name)]]
        if not pool:
            return filt(r, res)
        a = r.choice([x for x in pool if x.subs and x.mv] or pool) if r.random() < 0.75 else r.choice(pool)
        v = data[get_key(data, a.name)]
        name = case(r, a.name, kc)
        if a.subs:
            it = r.choice(v) if isinstance(v, list) else v
            have = [(s_, it[k]) for s_ in a.subs for k in it if k.lower() == s_.name.lower() and not s_.mv]
            have = [(s_, literal_of(x)) for s_, x in have if literal_of(x)]
            if not have:
                parts.append(name + " pr")
                continue
            some = r.sample(have, min(len(have), r.choice([1, 2, 2, 3])))
            if r.random() < 0.75:
                parts.append("%s[%s]" % (name, r.choice([" and ", " and ", " or "]).join(
                    "%s eq %s" % (case(r, s_.name, kc), x) for s_, x in some)))
            else:
                parts.append("%s.%s eq %s" % (name, some[0][0].name, some[0][1]))
        else:
            x = literal_of(r.choice(v) if isinstance(v, list) else v)
            parts.append("%s eq %s" % (name, x) if x else name + " pr")
    parts = ["not (%s)" % x if r.random() < 0.1 else x for x in parts]
    return r.choice([" and ", " or "]).join(parts)


def bad_filter(r, res):
    f = filt(r, res)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(f) + 1)
        k = r.randrange(6)
        if k == 0:
            f = f[:i]
        elif k == 1:
            f = f[:i] + r.choice(["(", ")", "[", "]", '"', " and", " or ", "not ", "."]) + f[i:]
        elif k == 2:
            j = r.randrange(len(f) + 1)
            f = f[:min(i, j)] + f[max(i, j):]
        elif k == 3:
            f = f.replace(" eq ", r.choice([" eqq ", " ", " eq eq "]), 1)
        elif k == 4:
            f = r.choice(["", " ", "()", "[]", "a", "a eq", "eq", "userName eq 'x", "emails[]",
                          "emails[type eq 'x'].a", "not", "a[b[c eq 1]]", "|&PLACE_HOLDER_0&| eq 1"])
        else:
            f = f + r.choice([" and", ")", "]", " x"])
    return f


def attr_name(r, res, bad=0.06):
    if r.random() < bad:
        return r.choice(["", "a b", "a.b.c", "1-2", "é", ":", "x:", "unknown", "name.unknown", "."])
    a = r.choice(res.all())
    n = case(r, a.name, 0.25)
    if a.subs and r.random() < 0.6:
        n += "." + case(r, r.choice(a.subs).name, 0.25)
    if a.ext:
        return a.ext + ":" + n
    if r.random() < 0.12:
        return res.core + ":" + n
    return n


def attr_names(r, res, bad=0.06):
    return [attr_name(r, res, bad) for _ in range(r.choice([1, 1, 2, 3, 4]))]


def query(r, res, bad=0.1, lists=True):
    q = {}
    if r.random() < 0.45:
        names = attr_names(r, res)
        key = r.choice(["attributes", "attributes", "excludeAttributes"])
        q[key] = names if r.random() < 0.5 else ",".join(names)
        if r.random() < bad:
            q["excludeAttributes"] = attr_names(r, res)
    if lists:
        if r.random() < 0.6:
            q["filter"] = bad_filter(r, res) if r.random() < bad else filt(r, res)
        if r.random() < 0.5:
            q["sortBy"] = attr_name(r, res)
            if r.random() < 0.5:
                q["sortOrder"] = r.choice(["ascending", "descending", "Descending"])
        if r.random() < 0.4:
            q["count"] = r.choice(["0", "1", 2, "10", "x", 1.0, "-1"])
        if r.random() < 0.4:
            q["startIndex"] = r.choice(["1", "2", 3, "", "x"])
    if r.random() < 0.1:
        q["extra"] = r.choice(["1", ["a"], {"b": 1}])
    return q


# ---------------------------------------------------------------------------- patch
def patch_path(r, res, kc=0.15):
    a = r.choice([x for x in res.all() if x.name not in ("schemas",)])
    base = (a.ext + ":" if a.ext else "") + case(r, a.name, kc)
    if a.type == "complex":
        x = r.random()
        s = r.choice(a.subs)
        if a.mv and x < 0.6:
            p = "%s[%s]" % (base, filt(r, res, 3, a, kc))
            if r.random() < 0.6:
                return p + "." + case(r, s.name, kc), a, s
            return p, a, None
        if x < 0.8:
            return base + "." + case(r, s.name, kc), a, s
    return base, a, None


def patch_op(r, res, bad=0.1):
    kind = r.choice(["add", "replace", "remove", "add", "replace"])
    op = {"op": case(r, kind, 0.1) if r.random() < 0.1 else kind}
    if r.random() < 0.3 and kind != "remove":
        body = resource(r, res, "parse", density=0.2)
        if r.random() < 0.5:
            k = get_key(body, "schemas")
            body.pop(k, None)
        op["value"] = body
        return op
    p, a, s = patch_path(r, res)
    op["path"] = p
    if kind != "remove":
        t = s or a
        v = value(r, t, "parse")
        op["value"] = v
    if r.random() < bad:
        op = damage(r, op, 1)
    return op


def patch_body(r, res, bad=0.1):
    body = {
        "schemas": [MSG("PatchOp")],
        "Operations": [patch_op(r, res, bad) for _ in range(r.choice([1, 1, 2, 3]))],
    }
    return body


def MSG(n):
    return S.MSG + n


# ---------------------------------------------------------------------------- bulk
def bulk_op(r, bad=0.1):
    res = r.choice(list(S.RESOURCES.values()))
    m = r.choice(["POST", "PUT", "PATCH", "DELETE", "GET", "POST", "PUT"])
    op = {"method": m}
    if m == "POST":
        op["bulkId"] = r.choice(["q1", "q2", "ytrewq"])
        op["path"] = "/" + res.plural
        op["data"] = resource(r, res, "parse")
    else:
        op["path"] = "/%s/%s" % (res.plural, r.choice(["r1", "abc"]))
        if m == "PUT":
            op["data"] = resource(r, res, "parse", server=True)
        elif m == "PATCH":
            op["data"] = patch_body(r, res, 0)
    if r.random() < 0.3:
        op["version"] = 'W/"1"'
    if r.random() < bad:
        op = damage(r, op, 1)
    return op


def bulk_body(r, bad=0.1, n=None):
    b = {"schemas": [MSG("BulkRequest")],
         "Operations": [bulk_op(r, bad) for _ in range(n or r.choice([1, 1, 2, 3, 5, 9]))]}
    if r.random() < 0.5:
        b["failOnErrors"] = r.choice([0, 1, 2, 5])
    return b


def bulk_resp_op(r, bad=0.1):
    res = r.choice(list(S.RESOURCES.values()))
    m = r.choice(["POST", "PUT", "PATCH", "DELETE", "GET", "PUT", "POST"])
    op = {"method": m}
    if m == "POST":
        op["bulkId"] = r.choice(["q1", "q2"])
    fail = r.random() < 0.3
    rid = r.choice(IDS)
    op["location"] = location(res, rid)
    if fail:
        st = r.choice(["400", "404", "409", "412", "500"])
        op["status"] = st
        op["response"] = err_body(r, st)
        if m == "POST" and r.random() < 0.5:
            op.pop("location")
    else:
        op["status"] = {"POST": "201", "DELETE": "204"}.get(m, "200")
        if m == "PATCH" and r.random() < 0.3:
            op["status"] = "204"
        if m != "DELETE" and r.random() < 0.8 and op["status"] != "204":
            body = resource(r, res, "dump")
            k = get_key(body, "meta")
            body[k]["location"] = op["location"]
            op["response"] = body
            if r.random() < 0.5:
                op["version"] = body[k]["version"]
    if r.random() < bad:
        op = damage(r, op, 1)
    return op


def bulk_resp(r, bad=0.1):
    return {"schemas": [MSG("BulkResponse")],
            "Operations": [bulk_resp_op(r, bad) for _ in range(r.choice([1, 1, 2, 3, 5]))]}


def err_body(r, status=None):
    status = status or r.choice(["400", "404", "409", "500", "307"])
    b = {"schemas": [MSG("Error")], "status": status}
    if r.random() < 0.6:
        b["scimType"] = r.choice(["invalidFilter", "tooMany", "uniqueness", "mutability",
                                  "invalidSyntax", "invalidPath", "noTarget", "invalidValue",
                                  "invalidVers", "sensitive"])
    if r.random() < 0.6:
        b["detail"] = word(r)
    return b


def search_body(r, bad=0.1):
    res = r.choice(list(S.RESOURCES.values()))
    q = query(r, res, bad)
    b = {"schemas": [MSG("SearchRequest")]}
    for k in ("attributes", "excludeAttributes"):
        if k in q:
            b[k] = q[k] if isinstance(q[k], list) else q[k].split(",")
    for k in ("filter", "sortBy", "sortOrder"):
        if k in q:
            b[k] = q[k]
    if r.random() < 0.5:
        b["count"] = r.choice([0, 1, 5])
    if r.random() < 0.5:
        b["startIndex"] = r.choice([1, 2])
    return b


def list_body(r, ress, n=None, bad=0.1):
    n = r.choice([0, 1, 2, 3, 4]) if n is None else n
    rs = [resource(r, r.choice(ress), "dump") for _ in range(n)]
    b = {"schemas": [MSG("ListResponse")], "totalResults": n + r.choice([0, 0, 0, 2]),
         "Resources": rs}
    if r.random() < 0.6:
        b["startIndex"] = 1
    if r.random() < 0.6:
        b["itemsPerPage"] = n
    return b


def shadow(r, res, body):
    return body


# ---------------------------------------------------------------------------- operations
def checker_spec(r, res):
    x = r.random()
    if x < 0.5:
        return None
    return {"attrs": attr_names(r, res, 0), "include": r.random() < 0.6}


HDRS = [None, {}, {"X": "1"}, {"If-Match": 'W/"1"'}]


def op(r, bad=0.15):
    """One request or library call, valid with probability about 1-bad."""
    return op_of(r, r.choice(OP_KINDS), r.choice(list(S.RESOURCES)), bad)


def op_of(r, k, res_key, bad=0.15):
    res = S.RESOURCES[res_key]
    every = list(S.RESOURCES.values())
    hit = r.random() < bad

    def dmg(v):
        return damage(r, v, junk=JUNK) if hit else v

    if k == "parse_put":
        return {"op": "parse", "res": res.key, "kind": "put",
                "body": dmg(resource(r, res, "parse", server=True)),
                "query": query(r, res, lists=False) if r.random() < 0.4 else None,
                "headers": r.choice(HDRS)}
    if k == "parse_post":
        return {"op": "parse", "res": res.key, "kind": "post",
                "body": dmg(resource(r, res, "parse", server=r.random() < 0.2)),
                "query": query(r, res, lists=False) if r.random() < 0.3 else None,
                "headers": r.choice(HDRS)}
    if k == "parse_patch":
        return {"op": "parse", "res": res.key, "kind": "patch",
                "body": dmg(patch_body(r, res, 0)),
                "query": query(r, res, lists=False) if r.random() < 0.3 else None}
    if k == "parse_get":
        return {"op": "parse", "res": res.key, "kind": "get",
                "query": query(r, res, lists=False)}
    if k == "parse_list":
        kind = r.choice([(res.key, "list"), ("*", "root"), ("*", "schemas"), ("*", "restypes"),
                         (res.key, "list"), ("*", "root")])
        return {"op": "parse", "res": kind[0], "kind": kind[1], "query": query(r, res)}
    if k == "parse_search":
        return {"op": "parse", "res": "*", "kind": "search", "body": dmg(search_body(r))}
    if k == "parse_bulk":
        return {"op": "parse", "res": "*", "kind": "bulk", "body": bulk_body(r, 0.2 if hit else 0)}
    if k == "dump_obj":
        kind = r.choice(["get", "put", "post", "patch"])
        body = resource(r, res, "dump")
        st = {"post": 201}.get(kind, 200)
        loc = body[get_key(body, "meta")]["location"]
        if hit and r.random() < 0.3:
            st = r.choice([200, 201, 204, 404])
        return {"op": "dump", "res": res.key, "kind": kind, "status": st, "body": dmg(body),
                "headers": {"Location": loc} if kind == "post" or r.random() < 0.4 else None,
                "checker": checker_spec(r, res)}
    if k == "dump_delete":
        return {"op": "dump", "res": res.key, "kind": "delete", "status": r.choice([204, 204, 200]),
                "headers": r.choice(HDRS)}
    if k == "dump_list":
        one = r.random() < 0.6
        kind = (res.key, "list") if one else r.choice([("*", "root"), ("*", "search")])
        body = list_body(r, [res] if one else every)
        o = {"op": "dump", "res": kind[0], "kind": kind[1], "status": 200, "body": dmg(body),
             "checker": checker_spec(r, res)}
        if r.random() < 0.5:
            o["filter"] = filt(r, res, 1)
            fine = [x for x in body["Resources"] if isinstance(x, dict)]
            if fine and r.random() < 0.5:
                o["filter"] = fitting(r, res, r.choice(fine))
        if r.random() < 0.5:
            o["sorter"] = {"by": attr_name(r, res, 0), "asc": r.random() < 0.6}
        if r.random() < 0.4:
            o["count"] = r.choice([0, 1, 3, 10])
        if r.random() < 0.3:
            o["start_index"] = r.choice([1, 2])
        return o
    if k == "dump_bulk":
        return {"op": "dump", "res": "*", "kind": "bulk", "status": 200,
                "body": bulk_resp(r, 0.2 if hit else 0),
                "fail_on_errors": r.choice([None, None, 0, 1])}
    if k == "dump_error":
        b = err_body(r)
        return {"op": "dump", "res": "*", "kind": "error",
                "status": int(b["status"]) if r.random() < 0.8 else 400, "body": dmg(b)}
    if k == "filter":
        return {"op": "filter", "exp": bad_filter(r, res) if hit else filt(r, res)}
    if k == "match":
        data = resource(r, res, "parse", server=True)
        return {"op": "match", "exp": filt(r, res) if r.random() < 0.35 else fitting(r, res, data), "res": res.key,
                "data": data, "strict": r.random() < 0.6}
    if k == "sort":
        n = r.choice([1, 2, 3, 5])
        return {"op": "sort", "by": attr_name(r, res, 0), "asc": r.random() < 0.6, "res": res.key,
                "items": [resource(r, res, "parse", server=True) for _ in range(n)]}
    if k == "presence":
        return {"op": "presence", "res": res.key, "attrs": attr_names(r, res, 0),
                "include": r.choice([True, False, None]),
                "data": resource(r, res, "parse", server=True),
                "direction": r.choice(["REQUEST", "RESPONSE"])}
    if k == "path":
        p = patch_path(r, res)[0]
        return {"op": "path", "exp": damage(r, p, 1) if hit else p}
    if k == "schema":
        return {"op": "schema", "res": res.key, "method": "parse",
                "data": dmg(resource(r, res, "parse", server=True))}
    if k == "schema_dump":
        return {"op": "schema", "res": res.key, "method": "dump",
                "data": dmg(resource(r, res, "dump"))}
    if k == "rep":
        return {"op": "rep", "res": res.key}
    if k == "schemas_list":
        return {"op": "schemas_list"}
    if k == "roundtrip":
        return {"op": "roundtrip", "res": res.key, "query": query(r, res, 0),
                "body": list_body(r, [res])}
    raise AssertionError(k)


OP_KINDS = (
    ["parse_put"] * 4 + ["parse_post"] * 4 + ["parse_patch"] * 4 + ["parse_get"] * 2
    + ["parse_list"] * 4 + ["parse_search"] * 2 + ["parse_bulk"] * 2 + ["dump_obj"] * 5
    + ["dump_delete"] + ["dump_list"] * 5 + ["dump_bulk"] * 2 + ["dump_error"] * 2
    + ["filter"] * 3 + ["match"] * 4 + ["sort"] * 3 + ["presence"] * 3 + ["path"] * 2
    + ["schema"] * 3 + ["schema_dump"] * 3 + ["rep"] + ["schemas_list"] + ["roundtrip"] * 2
)


# ---------------------------------------------------------------------------- near twins
def _swap(v, r):
    """The smallest visible change of a scalar."""
    if isinstance(v, bool):
        return r.choice([not v, int(v)])
    if isinstance(v, int):
        return r.choice([v + 1, float(v) if abs(v) < 1e15 else v - 1, v == 1, str(v)])
    if isinstance(v, float):
        return r.choice([v + 1, -v])
    if isinstance(v, str):
        return r.choice([v.upper(), v.lower(), v.swapcase(), v + " ", v[:-1], v + "x",
                         v[:1].upper() + v[1:]])
    if v is None:
        return r.choice(["", 0])
    return v


def kin(r, o):
    """Another call that meets the same long-lived objects (filter, sorter, checker, validator) with other content."""
    o2 = json.loads(json.dumps(o))
    res = S.RESOURCES.get(o.get("res"))
    if o["op"] in ("match", "presence"):
        o2["data"] = resource(r, res, "parse", server=True)
        if r.random() < 0.3:                     # the same content, parts of it elsewhere
            o2["data"] = json.loads(json.dumps(o["data"]))
            for k, v in o2["data"].items():
                if isinstance(v, list):
                    r.shuffle(v)
                    if v and r.random() < 0.5:
                        v.pop()
    elif o["op"] == "sort":
        o2["items"] = [resource(r, res, "parse", server=True) for _ in range(r.choice([1, 2, 3, 5]))]
    elif o["op"] == "schema":
        o2["data"] = resource(r, res, o["method"], server=True)
    elif o["op"] in ("dump", "roundtrip") and o.get("kind") in (None, "list", "root", "search"):
        o2["body"] = list_body(r, [res] if res else list(S.RESOURCES.values()))
    elif o["op"] in ("parse", "dump") and o.get("kind") in ("get", "put", "post") and isinstance(o.get("body"), dict):
        o2["body"] = resource(r, res, o["op"], server=True)
    else:
        return twin(r, o)
    return o2


def twin(r, o):
    """Another operation that differs from `o` in one scalar: the food of a wrong cache key."""
    o2 = json.loads(json.dumps(o))
    keep = {"op", "kind", "res", "method", "direction"}
    ps = [p for p in paths(o2) if p and p[0] not in keep
          and not isinstance(get_at(o2, p), (dict, list))]
    if r.random() < 0.12 and o.get("res") in S.RESOURCES:
        o2["res"] = r.choice([k for k in S.RESOURCES if k != o["res"]])
        return o2
    if not ps:
        return o2
    p = r.choice(ps)
    return put_at(o2, p, _swap(get_at(o2, p), r))
