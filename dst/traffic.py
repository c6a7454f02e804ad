"""Seeded traffic of the simulated deployment: messages together with what they mean."""
import json

from . import docs, faults, gen, model
from . import spec as S
from .deploy import normal

ORDER = ["gt", "ge", "lt", "le"]
TEXT = ["eq", "ne", "co", "sw", "ew"]
STRINGS = gen.WORDS + ["and", "a and b", "x or y", "(x)", "a) or (b", "[x]", "not x", "a.b", "pr", "eq 1",
                       "it's", "W/\"1\"", "  ", "a,b", "type eq work", "}{", "\\", "%", "é\u0301", "1", "1.5"]


# ------------------------------------------------------------------ conditions
def literal(r, a):
    t = a.type
    if t == "integer":
        return r.choice(gen.INTS + [1, 2])
    if t == "decimal":
        return r.choice(gen.DECS + [1, 2])
    if t == "boolean":
        return r.random() < 0.5
    if t == "dateTime":
        return r.choice(gen.DTS)
    if t == "binary":
        return r.choice(gen.B64)
    if t in ("uri", "external"):
        return r.choice(gen.URLS)
    if t == "scimref":
        return "../Users/" + r.choice(gen.IDS)
    if a.canonical and r.random() < 0.6:
        return r.choice(a.canonical)
    return r.choice(gen.WORDS) if r.random() < 0.75 else r.choice(STRINGS)


def operator(r, a):
    t = a.type
    if t == "boolean":
        return r.choice(["eq", "ne"])
    if t in ("integer", "decimal", "dateTime"):
        return r.choice(["eq", "ne"] + ORDER)
    if t == "binary":
        return r.choice(["eq", "ne"])
    if t in ("uri", "external", "scimref"):
        return r.choice(TEXT)
    return r.choice(TEXT + TEXT + ORDER)


def lit_text(r, v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if '"' in v or (r.random() < 0.2 and "'" not in v):
        return "'" + v + "'"
    return '"' + v + '"'


def usable(a):
    return a.subs


def twins(res):
    """Attributes whose name also stands for another one, of the extension or of the core schema."""
    both = {a.name.lower() for a in res.attrs} & {a.name.lower() for a in res.ext_attrs}
    return [a for a in res.all() if a.name.lower() in both]


def pick(r, res):
    t = twins(res)
    return r.choice(t if t and r.random() < 0.3 else res.all())


def urn(r, res, a, p):
    """The prefix an attribute is named with: needed for extensions, a matter of taste for the core."""
    if a.ext:
        return a.ext + ":"
    t = a in twins(res)
    return res.core + ":" if r.random() < (0.6 if t else p) else ""


def cond(r, res, depth=0, inner=None):
    """A condition over a resource type (or over the parts of one attribute)."""
    x = r.random()
    if depth < 3 and x < 0.35:
        return [r.choice(["and", "or"]), [cond(r, res, depth + 1, inner) for _ in range(r.choice([2, 2, 3]))]]
    if depth < 3 and x < 0.43:
        return ["not", cond(r, res, depth + 1, inner)]
    if inner is not None:
        a = r.choice(usable(inner))
        name = a.name
    else:
        a = pick(r, res)
        name = urn(r, res, a, 0.1) + a.name
        if a.type == "complex":
            if r.random() < 0.35:
                return ["in", name, cond(r, res, 2 if r.random() < 0.7 else 1, a)]
            if not (a.mv and a.sub("value") and r.random() < 0.25):
                s = r.choice(usable(a))
                name, a = name + "." + s.name, s
    if r.random() < 0.15:
        return ["pr", name]
    if a.type == "complex":
        a = a.sub("value")
        return ["cmp", operator(r, a) if a.type != "string" else r.choice(TEXT + ORDER), name, literal(r, a)]
    return ["cmp", operator(r, a), name, literal(r, a)]


def render(r, c, up=None, kc=0.2):
    """Text of a condition: random letter case of names and comparison operators, spare parentheses."""
    if c[0] in ("and", "or"):
        sep = " " * r.choice([1, 1, 1, 2])
        t = (sep + gen.case(r, c[0], 0.1) + sep).join(render(r, k, c[0], kc) for k in c[1])
        need = up in ("not", "and") or up == c[0]
        return "(" + t + ")" if need or r.random() < 0.2 else t
    if c[0] == "not":
        k = c[1]
        t = render(r, k, "not", kc)
        if not t.startswith("(") or not whole(t):
            t = "(" + t + ")" if r.random() < 0.8 or k[0] == "not" else t
        t = gen.case(r, "not", 0.1) + ("" if t.startswith("(") and r.random() < 0.2 else " ") + t
        return "(" + t + ")" if r.random() < 0.15 or up == "not" else t
    if c[0] == "in":
        t = gen.case(r, c[1], kc) + "[" + render(r, c[2], None, kc) + "]"
    elif c[0] == "pr":
        t = gen.case(r, c[1], kc) + " " + gen.case(r, "pr", 0.1)
    else:
        t = "%s %s %s" % (gen.case(r, c[2], kc), gen.case(r, c[1], 0.1), lit_text(r, c[3]))
    return "(" + t + ")" if r.random() < 0.1 else t


def whole(t):
    """One pair of parentheses around the entire text."""
    d = 0
    for i, ch in enumerate(t):
        d += (ch == "(") - (ch == ")")
        if d == 0:
            return i == len(t) - 1
    return False


BAD_FILTERS = ["userName eq", 'userName xx "a"', '(userName eq "a"', 'userName eq "a")', 'emails[type eq "x"',
               "userName gt true", "and userName pr", 'userName eq "a" and', 'emails[]', "not", "()",
               'userName eq "a" or', "userName co 5", "eq", 'emails[type eq "x"]]', "userName", "userName sw false",
               'emails[type eq "x" and]', "a.b.c pr", 'userName eq unquoted']


# ------------------------------------------------------------------ queries
def names(r, ress, n=None):
    out = []
    for _ in range(n or r.choice([1, 1, 2, 2, 3, 5])):
        res = r.choice(ress)
        a = pick(r, res)
        x = gen.case(r, a.name, 0.2)
        if a.subs and r.random() < 0.6:
            x += "." + gen.case(r, r.choice(usable(a)).name, 0.2)
        out.append(gen.case(r, urn(r, res, a, 0.1), 0.1) + x)
    if r.random() < 0.1:
        out.append(r.choice(["unknown", "name.unknown", "id", "schemas", "meta", "meta.location"]))
    return out


def pick_attrs(r, q, ress, lists=True, p=0.5):
    if r.random() < p:
        v = names(r, ress)
        q[r.choice(["attributes", "attributes", "excludeAttributes"])] = \
            v if lists and r.random() < 0.5 else ",".join(v)
    return q


def list_query(r, m, ress, search):
    """(query, condition, ok)"""
    q, c, ok = {}, None, True
    if r.random() < 0.65:
        c = cond(r, r.choice(ress))
        q["filter"] = render(r, c)
    if r.random() < 0.5:
        q["sortBy"] = r.choice([names(r, ress, 1)[0], r.choice(
            ["userName", "displayName", "displayName", "title", "emails", "name.familyName", "ports", "weight", "serialNumber",
             "meta.created", "id", "externalId", "interfaces", "labels", "codes", "network.mac", "active"])])
        if r.random() < 0.6:
            q["sortOrder"] = r.choice(["ascending", "descending"])
    pick_attrs(r, q, ress, True, 0.4)
    if search and isinstance(q.get("attributes"), str):
        q["attributes"] = q["attributes"].split(",")
    if search and isinstance(q.get("excludeAttributes"), str):
        q["excludeAttributes"] = q["excludeAttributes"].split(",")
    if r.random() < 0.4:
        q["count"] = r.choice([0, 1, 2, 3, 10])
        if not search and r.random() < 0.6:
            q["count"] = str(q["count"])
    if r.random() < 0.3:
        q["startIndex"] = r.choice([1, 1, 2, 3])
        if not search and r.random() < 0.6:
            q["startIndex"] = str(q["startIndex"])
    if r.random() < 0.08:
        k = r.randrange(5)
        ok = False
        if k == 0:
            q["filter"] = r.choice(BAD_FILTERS)
        elif k == 1:
            q["attributes"], q["excludeAttributes"] = ["userName"], ["title"]
        elif k == 2:
            q["count"] = r.choice(["x", "", [1]])
        elif k == 3:
            q["sortBy"] = r.choice(["a b", "a.b.c", ""]) if not search else "a.b.c"
        else:
            q["startIndex"] = r.choice(["x", {}, "1.5"])
    return q, c, ok


# ------------------------------------------------------------------ resources
def body_of(r, res, m, kc=0.12, rich=None):
    server = m == "PUT" or r.random() < 0.15
    b = gen.resource(r, res, "parse", kc, rich or r.choice([0.15, 0.4, 0.7]), server)
    if m == "PUT":
        for a in res.all():                     # what a client sends back of server-owned parts
            if a.mutability == "readOnly" and r.random() < 0.4 and a.name not in ("schemas", "meta", "id"):
                if not a.ext or isinstance(b.get(a.ext), dict):
                    (b[a.ext] if a.ext else b).setdefault(a.name, gen.value(r, a, "parse", 0))
    return b


NEAR = ["wrong-type", "canonical", "primaries", "schemas", "id", "drop-required", "empty", "add-any"]


def near_miss(r, res, body):
    """A mistake of the client in an otherwise correct body."""
    b = json.loads(json.dumps(body))
    b = faults.damage_resource(r, r.choice(NEAR), res, b, None)
    return faults.tag(b)


# ------------------------------------------------------------------ patches
def patch_path(r, res, paths, ro=0.06):
    pool = [a for a in res.all() if a.name not in ("schemas",)
            and (a.mutability != "readOnly" or r.random() < ro)]
    mixed = [a for a in pool if any(s.mutability != a.mutability for s in a.subs)]
    edge = bool(mixed) and r.random() < 0.15
    a = r.choice(mixed if edge else pool)
    base = urn(r, res, a, 0.05) + gen.case(r, a.name, 0.15)
    if a.type == "complex":
        x = r.random()
        subs = [s for s in usable(a) if s.mutability != "readOnly" or r.random() < 0.3]
        if edge and r.random() < 0.5:
            subs = [s for s in usable(a) if s.mutability != a.mutability]
        s = r.choice(subs or usable(a))
        if a.mv and x < 0.55:
            c = cond(r, res, r.choice([1, 2, 3, 3]), a)
            text = base + "[" + render(r, c, None, 0.15) + "]"
            if r.random() < 0.6:
                text += "." + gen.case(r, s.name, 0.15)
                paths[text] = [base, normal(c), s.name]
                return text, a, s
            paths[text] = [base, normal(c), None]
            return text, a, None
        if x < 0.8:
            text = base + "." + gen.case(r, s.name, 0.15)
            paths[text] = [text, None, None]
            return text, a, s
    paths[base] = [base, None, None]
    return base, a, None


def strip_ro(r, res, body):
    """Leave out what a client may not write."""
    b = {}
    for a in res.all():
        h = body
        if a.ext:
            k = gen.get_key(body, a.ext)
            h = body.get(k) if k else {}
        k = gen.get_key(h, a.name)
        if k is None or a.mutability == "readOnly":
            continue
        v = h[k]
        for s in a.subs:
            if s.mutability == "readOnly":
                for it in (v if isinstance(v, list) else [v]):
                    kk = gen.get_key(it, s.name)
                    if kk is not None:
                        it.pop(kk)
        (b.setdefault(a.ext, {}) if a.ext else b)[k] = v
    return b


def patch_op(r, res, paths):
    kind = r.choice(["add", "replace", "remove", "add", "replace"])
    op = {"op": gen.case(r, kind, 0.1)}
    if kind != "remove" and r.random() < 0.3:
        b = gen.resource(r, res, "parse", 0.1, r.choice([0.1, 0.3]), r.random() < 0.1)
        if r.random() < 0.85:
            b = strip_ro(r, res, b)
            if r.random() < 0.15:
                b = near_miss(r, res, b)
            elif r.random() < 0.1:
                e, at, sub = r.choice(model.read_only_paths(res))
                h = b.setdefault(e, {}) if e else b
                v = r.choice([None, "", []])
                if not sub:
                    h[at] = v
                elif isinstance(h.get(at), dict):
                    h[at][sub] = v
        op["value"] = b
        return op
    text, a, s = patch_path(r, res, paths)
    op["path"] = text
    if kind != "remove":
        t = s or a
        v = gen.value(r, t, "parse", 0.1)
        if t.type == "complex":
            keep = r.random() < 0.15
            for x in (v if isinstance(v, list) else [v]):
                for y in t.subs:
                    if y.mutability == "readOnly":
                        k = gen.get_key(x, y.name)
                        if k is not None:
                            x.pop(k)
                        if keep and r.random() < 0.6:
                            x[y.name] = r.choice([None, "", [], gen.value(r, y, "parse", 0)])
        elif r.random() < 0.08:
            v = r.choice(gen.WRONG[t.type])
        op["value"] = v
    x = r.random()
    if x < 0.06:
        op = gen.damage(r, op, 1)
    elif x < 0.09:
        op.pop(r.choice(sorted(op)))
    elif x < 0.12 and "value" in op:
        op["value"] = r.choice(gen.JUNK)
    return op


def patch_body(r, res, paths, n=None):
    return {"schemas": [S.MSG + "PatchOp"],
            "Operations": [patch_op(r, res, paths) for _ in range(n or r.choice([1, 1, 2, 3]))]}


# ------------------------------------------------------------------ messages
def message(r, m, res=None):
    res = res or r.choice(list(S.RESOURCES.values()))
    every = list(S.RESOURCES.values())
    msg = {"m": m}
    if m in ("POST", "PUT", "PATCH", "GET", "DELETE"):
        msg["res"] = res.key
        msg["slot"] = r.randrange(12)
    if m in ("POST", "PUT"):
        b = body_of(r, res, m, r.choice([0, 0.2]))
        if r.random() < 0.3:
            b = near_miss(r, res, body_of(r, res, m, 0))
        msg["body"] = b
        msg["loc"] = r.random() < 0.5
    if m == "PATCH":
        msg["paths"] = {}
        msg["body"] = patch_body(r, res, msg["paths"])
        msg["loc"] = r.random() < 0.4
        msg["quiet"] = r.random() < 0.2
    if m == "GET":
        msg["loc"] = r.random() < 0.3
    if m in ("GET", "POST", "PUT", "PATCH"):
        msg["query"] = pick_attrs(r, {}, [res], True, 0.6 if m == "GET" else 0.25)
        if r.random() < 0.04:
            msg["query"] = {"attributes": names(r, [res]), "excludeAttributes": names(r, [res])}
        if r.random() < 0.04:
            msg["query"] = {"attributes": r.choice(["a.b.c", ".x", "x.", "userName,a.b.c"])}
        if r.random() < 0.3:
            msg["headers"] = {"X-Request": "1"}
    if m in ("SCHEMAS", "TYPES"):
        msg["query"] = r.choice([{}, {}, None, {"x": "y"}, {"filter": 'name eq "User"'}, {"count": "1"}])
    if m == "CONFIG":
        msg["query"] = {}
        if r.random() < 0.5:
            pool = [a.name + (".%s" % r.choice(a.subs).name if a.subs and r.random() < 0.5 else "")
                    for a in docs.SPC.attrs]
            msg["query"] = {r.choice(["attributes", "excludeAttributes"]): [
                gen.case(r, x, 0.2) for x in r.sample(pool, r.choice([1, 2, 3]))]}
    if m in ("LIST", "ROOT", "SEARCH"):
        if m == "LIST":
            msg["res"] = res.key
        msg["query"], msg["cond"], msg["ok"] = list_query(r, m, [res] if m == "LIST" else every, m == "SEARCH")
    if m == "BULK":
        msg["paths"] = {}
        top = S.CONFIG["bulk"].get("max_operations", 11)
        n = r.choice([1, 2, 2, 3, 5, min(top, 12), min(top + 1, 12)]) if r.random() < 0.97 else min(top, 30)
        msg["body"] = {"schemas": [S.MSG + "BulkRequest"],
                       "Operations": [bulk_op(r, msg["paths"]) for _ in range(n)]}
        if r.random() < 0.5:
            msg["body"]["failOnErrors"] = r.choice([0, 1, 2, 5])
            msg["fail_on_errors"] = msg["body"]["failOnErrors"]
        elif r.random() < 0.4:
            msg["fail_on_errors"] = r.choice([0, 1, 2])
        msg["full"] = r.random() < 0.8
    return msg


def bulk_op(r, paths, mistake=0.06):
    res = r.choice(list(S.RESOURCES.values()))
    m = r.choice(["POST", "POST", "PUT", "PATCH", "DELETE", "GET", "PATCH"])
    o = {"method": m}
    if m == "POST":
        o["path"] = "/" + res.plural
        o["bulkId"] = r.choice(["q1", "q2", "b%d" % r.randrange(9)])
        o["data"] = body_of(r, res, m, r.choice([0, 0.2]), 0.3)
    else:
        o["path"] = "/%s/%s" % (res.plural, r.choice(["a1", "b2", "c3", "x-y", "9"]))
        if m == "PUT":
            o["data"] = body_of(r, res, m, r.choice([0, 0.2]), 0.3)
        elif m == "PATCH":
            o["data"] = patch_body(r, res, paths, r.choice([1, 2]))
            for p in o["data"]["Operations"]:
                pass
    if r.random() < 0.3:
        o["version"] = 'W/"%d"' % r.randrange(5)
    x = r.random()
    if x < mistake / 2:
        k = r.randrange(8)
        if k == 0:
            o["path"] = r.choice(["/Nope", "/Nope/1", "Users", "/", "", "/Users", "/Users/1", "/Groups/2/3"])
        elif k == 1:
            o.pop(r.choice(sorted(o)))
        elif k == 2:
            o["method"] = r.choice(["post", "HEAD", "", None, "PATCH", "POST", "GET"])
        elif k == 3:
            o["data"] = r.choice([None, {}, "x", []])
        elif k == 4:
            o["bulkId"] = r.choice([None, 1, ""])
        elif k == 5:
            o["version"] = r.choice([1, None])
        elif k == 6 and isinstance(o.get("data"), dict) and m in ("POST", "PUT"):
            o["data"] = near_miss(r, res, body_of(r, res, m, 0, 0.4))
        else:
            o = gen.damage(r, o, 1)
    return o


def query_damage(r, q):
    q = json.loads(json.dumps(q)) if isinstance(q, dict) else {}
    if r.random() < 0.12 and q:                  # a parameter given several times
        k = r.choice(sorted(q))
        v = q[k] if isinstance(q[k], list) else [str(q[k])]
        q[k] = r.choice([v + v, v + ["x"], v, [], [""] + v])
        return q
    k = r.choice(sorted(q) or ["filter"])
    v = q.get(k, "userName pr")
    how = r.randrange(5)
    if isinstance(v, str) and how < 4:
        i = r.randrange(len(v) + 1)
        j = r.randrange(len(v) + 1)
        q[k] = r.choice([v[:i], v[i:], v[:i] + r.choice("\x00é\"'[](). ,:/|$&") + v[i:], v[:min(i, j)] + v[max(i, j):],
                         v.upper(), "", v + v, v + " and", gen.odd_literal(r, v), gen.odd_literal(r, v)])
    elif isinstance(v, list) and v and how < 4 and all(isinstance(x, str) for x in v):
        i = r.randrange(len(v))
        q[k] = v[:i] + [v[i][: r.randrange(len(v[i]) + 1)] + r.choice(["", ".", " ", ":", "é"])] + v[i + 1:]
    else:
        q[r.choice(["filter", "sortBy", "count", "startIndex", "attributes", "excludeAttributes", "x"])] = \
            r.choice(["", "x", "1", "()", "a.b", "a b", [], ["x"], ["x", "y.z"], None, "-1", "1e3"])
    return q


def event(r, profile, m):
    msg = message(r, m)
    return dict(event_of(r, profile, msg))


def event_of(r, p, msg):
    """The fate of one message on the network and behind it."""
    m = msg["m"]
    ev = {"msg": msg, "via": []}
    x = r.random()
    n = 0 if x < p.get("lose", 0.03) else 2 if x > 1 - p.get("dup", 0.05) else 1
    for _ in range(n):
        d = {"node": r.randrange(3)}
        if r.random() < p.get("delay", 0.15):
            d["delay"] = r.choice([1, 2, 3, 6])
        if r.random() < p.get("corrupt", 0):
            if "body" in msg:
                d["body"] = gen.damage(r, msg["body"])
            elif m != "DELETE" and msg.get("query") is not None:
                d["query"] = query_damage(r, msg["query"])
        if p.get("spots") and r.random() < p["spots"]:
            d["spots"] = r.randrange(1 << 30)
        if r.random() < p.get("crash", 0.03):
            d["crash"] = r.choice(["before", "after"])
        if r.random() < p.get("app", 0):
            kinds = p["app_kinds"].get(m) or p["app_kinds"]["*"]
            d["app"] = {"kind": r.choice(kinds), "seed": r.randrange(1 << 30)}
        ev["via"].append(d)
    if r.random() < p.get("jump", 0.05):
        ev["jump"] = r.choice([-86400, -3600, 3600, 86400 * 31, 86400 * 365])
    return ev
