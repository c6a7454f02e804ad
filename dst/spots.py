"""Damage at known places of an otherwise correct body, and what the issue report must then say."""
import copy
import random

from . import faults, gen, model

JSON = {"string": str, "integer": (int, float), "decimal": (int, float), "boolean": bool, "dateTime": str, "binary": str,
        "external": str, "uri": str, "scimref": str, "complex": dict}


def key_of(d, name):
    return next((k for k in d if k.lower() == name.lower()), None)


def places(res, body, direction, attr=None):
    """[(path, kind, container, key, attribute)] of everything that can be damaged on its own
    (in a resource, or in {name: value} of one attribute)."""
    out = []
    for a in (res.all() if attr is None else [attr]):
        if a.ext and attr is None:
            k = key_of(body, a.ext)
            home, pre = (body[k], (a.ext,)) if k and isinstance(body[k], dict) else (None, ())
        else:
            home, pre = body, ()
        if home is None:
            continue
        k = key_of(home, a.name)
        at = pre + (a.name,)
        if k is None:
            if direction == "dump" and a.returned == "never":
                out.append((at, "never", home, a.name, a))
            continue
        v = home[k]
        if a.name == "schemas":
            out.append((at, "schemas", home, k, a))
            continue
        if a.required and not (direction == "parse" and a.server):
            out.append((at, "missing", home, k, a))
        if v is None:
            continue
        if not a.mv:
            out.append((at, "object" if a.subs else "scalar", home, k, a))
            items = [(at, v)] if isinstance(v, dict) else []
        else:
            out.append((at, "list", home, k, a))
            if not isinstance(v, list):
                continue
            out += [(at + (i,), "object" if a.subs else "scalar", v, i, a) for i in range(len(v))]
            items = [(at + (i,), x) for i, x in enumerate(v) if isinstance(x, dict)]
            if a.sub("primary") and v:
                out.append((at, "primary", home, k, a))
        for p, x in items:
            for s in a.subs:
                k2 = key_of(x, s.name)
                if k2 is None:
                    if direction == "dump" and s.returned == "never" and x:
                        out.append((p + (s.name,), "never", x, s.name, s))
                    continue
                if s.required and not (direction == "parse" and s.server):
                    out.append((p + (s.name,), "missing", x, k2, s))
                if x[k2] is not None and not s.subs and not s.mv:
                    out.append((p + (s.name,), "scalar", x, k2, s))
    return out


def refused(a, v, direction):
    return model.judge(model.one, a, v, direction)[0] == "no"


def hit(r, kind, home, k, a, direction):
    """Damage one place.  Returns the codes that describe it, or None when nothing was done."""
    if kind == "missing":
        if r.random() < 0.6:
            del home[k]
        else:
            home[k] = None if a.mv or a.subs or r.random() < 0.6 else ""
            if home[k] == "" and (a.type not in ("string", "uri") or a.enforced):
                home[k] = None
        return {15}
    if kind == "never":
        v = faults.fresh(r, a)
        if model.empty(v) or model.judge(model.value, a, v, direction)[0] != "ok":
            return None
        home[k] = v
        return {19}
    if kind == "schemas":
        home[k] = list(home[k]) + ["urn:unknown:" + r.choice("abc")]
        return {27}
    if kind == "list":
        home[k] = r.choice(["x", 1, True, {"a": 1}, {}, 0])
        return {2}
    if kind == "primary":
        items = home[k]
        if not all(isinstance(x, dict) for x in items):
            return None
        one = copy.deepcopy(items[0])
        p = key_of(one, "primary") or "primary"
        one[p] = True
        home[k] = [one, copy.deepcopy(one)] + items[1:]
        return {9}
    if a.enforced and r.random() < 0.5:
        v = {"string": "not canonical", "integer": 99, "decimal": 99.5}[a.type]
        home[k] = v
        return {14}
    pool = [x for x in (faults.WRONG if direction == "dump" else gen.WRONG)[a.type]
            if refused(a, x, direction) and not (isinstance(x, bool) and a.type in ("integer", "decimal"))]
    if not pool:
        return None
    v = copy.deepcopy(r.choice(pool))
    home[k] = v
    want = JSON[a.type] if not (direction == "dump" and a.type == "dateTime") else ()
    good = want and isinstance(v, want) and not (isinstance(v, bool) and want is not bool)
    return None if v is None else {1, 2, 3, 8} if good else {2}


def damage(seed, res, body, direction, leave=(), attr=None):
    """(body, [(path, codes)]) or None.  The body is one the model accepts."""
    r = random.Random(seed)
    body = copy.deepcopy(body)
    if attr is not None:                         # the value of one attribute
        body = {attr.name: body}
    want = r.choice([1, 1, 2, 3, 4])
    sites = []
    for _ in range(want):
        pool = [p for p in places(res, body, direction, attr)
                if p[1] not in leave and not any(related(p[0], s[0]) for s in sites)]
        if not pool:
            break
        kinds = sorted({p[1] for p in pool})
        k = r.choice(kinds)
        p = r.choice([x for x in pool if x[1] == k])
        codes = hit(r, k, *p[2:], direction)
        if codes is None:
            return None
        sites.append((p[0], codes))
        if k == "primary":                       # the items have moved
            break
    if attr is not None:
        body, sites = body.get(attr.name), [(p[1:], c) for p, c in sites]
    return (body, sites) if sites else None


def related(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def report(issues):
    """{path: codes} of an issue report."""
    out = {}

    def walk(d, p):
        for k, v in d.items():
            if k == "_errors":
                if v:
                    out[p] = sorted(x["code"] for x in v)
            else:
                walk(v, p + (k.lower(),))
    walk(issues.to_dict(), ())
    return out


def flat(prefix, path):
    return tuple(str(x).lower() for x in prefix + path)
