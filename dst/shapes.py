"""Seeded resource types: tables for the Device resource type beyond the fixed one of spec.py.

A table is JSON-able: {"rows": {name: [type, flags, extra]}, "ext": {...}}.  `install` makes it the
meaning of S.DEVICE in this process (the deployment and the model both read it from there)."""
import contextlib

from . import spec as S

TOP = ["serialNumber", "alpha", "Beta", "gammaRay", "delta1", "size", "height", "since", "rawData", "link", "peer", "kind", "mode",
       "level", "x-rate", "t_2", "userName", "title", "emails", "displayName", "value", "type", "active", "members", "groups", "a",
       "primary", "op", "path", "Resources", "interfaces", "network", "name", "nickName", "addresses", "password", "either-or", "not-before", "and-1", "android", "order"]
EXT = ["bench", "rack", "omega", "Psi", "chi2", "phi-x", "sensors", "contact", "token", "tags", "manager", "region", "order", "zone", "title", "level", "name", "kind", "emails", "displayName"]
SUB = ["value", "type", "display", "primary", "hostname", "count", "when", "blob", "Mode", "note", "locality", "key", "$ref", "not-or"]
TYPES = ["string"] * 5 + ["integer", "decimal", "boolean", "dateTime", "binary", "external", "uri", "scimref"]
CANON = {"string": [["A", "b", "Cc"], ["On", "OFF", "auto"], ["x"]], "integer": [[1, 2, 7], [0]], "decimal": [[0.5, 2.25]]}


CORE = [S.CORE_DEVICE, S.CORE_DEVICE, "urn:my-org:scim:schemas:Device", "urn:sim:Device", "urn:x_y:core:1.0:Device.v1"]
URN = [S.EXT_LAB, S.EXT_LAB, S.ENT_USER, "urn:my-org:ext:1.0:Lab", "urn:sim:Device:Lab", "urn:sim:Dev", "urn:ext_2:lab-3.1", "urn:this:and:that", "urn:x:not-or:Lab"]


def flags(r, t, top, complex_=False):
    f = ""
    if r.random() < (0.3 if top else 0.12):
        f += "m"
    k = r.random()
    if k < 0.14:
        f += "o" + ("s" if r.random() < 0.5 else "")
    elif k < 0.24:
        f += "wn"
    elif k < 0.30:
        f += "i"
    elif k < 0.34:
        f += "n"
    else:
        if k < 0.44:
            f += "r" + ("s" if r.random() < 0.25 else "")
        if r.random() < 0.1:
            f += "a"
    if t == "string" and r.random() < 0.35:
        f += "x"
    return f


def simple(r, name, top):
    if name == "primary" and not top:
        return ["boolean", "", None]
    t = r.choice(TYPES)
    f = flags(r, t, top)
    extra = None
    if t in CANON and r.random() < 0.3:
        extra = r.choice(CANON[t])
        if r.random() < 0.6:
            f += "v"
    return [t, f, extra]


def rows(r, names, n):
    out = {}
    for name in r.sample(names, n):
        if r.random() < 0.35:
            f = flags(r, "complex", True)
            if r.random() < 0.3 and "m" not in f:
                f += "m"
            subs = r.sample(SUB, r.choice([1, 2, 3, 4, 5]))
            out[name] = ["complex", f, {s: simple(r, s, False) for s in subs}]
        else:
            out[name] = simple(r, name, True)
    return out


def draw(r):
    core = rows(r, TOP, r.choice([2, 4, 7, 12]))
    ext = rows(r, EXT, r.choice([1, 2, 4, 6]))
    if r.random() < 0.4:                         # names that mean something else in the extension
        twins = r.sample(list(core), r.choice([1, 2]))
        ext.update(rows(r, twins, len(twins)))
    return {"core": r.choice(CORE), "urn": r.choice(URN), "rows": core, "ext": ext}


def options(r):
    """Options of a deployment."""
    yes = lambda: {"supported": r.random() < 0.5}  # noqa
    out = S.config(
        patch=yes(), change_password=yes(), sort=yes(), etag=yes(),
        bulk=dict(yes(), max_operations=r.choice([1, 2, 3, 4, 7, 10, 1000]), max_payload_size=r.choice([1, 4096, 7000000])),
        filter_=dict(yes(), max_results=r.choice([1, 2, 200])),
        documentation_uri=r.choice(["https://example.com/doc", "http://h/other?x=1"]),
        authentication_schemes=[S.scheme(r.choice(["oauth", "oauth2", "oauthbearertoken", "httpbasic", "httpdigest"]), " %d" % i)
                                for i in range(r.choice([1, 2, 3]))])
    for k in ("bulk", "filter_"):                # features that are not offered need no limits
        if not out[k]["supported"] and r.random() < 0.5:
            out[k] = {"supported": False}
    return out


def install(tab, cfg=None):
    if cfg:
        S.CONFIG = cfg
    if not tab:
        return
    d = S.DEVICE
    d.core, d.ext = tab["core"], tab["urn"]
    d.attrs = [S.A(n, *row) for n, row in {**S._COMMON, **tab["rows"]}.items()]
    d.ext_attrs = [S.A(n, *row, ext=d.ext) for n, row in tab["ext"].items()]


@contextlib.contextmanager
def installed(tab, cfg=None):
    d = S.DEVICE
    was = S.CONFIG
    old = d.core, d.ext, d.attrs, d.ext_attrs
    install(tab, cfg)
    try:
        yield
    finally:
        d.core, d.ext, d.attrs, d.ext_attrs = old
        S.CONFIG = was


def smaller(tab):
    """Tables with one row (or part) less, or a plainer one."""
    for k, v in (("core", S.CORE_DEVICE), ("urn", S.EXT_LAB)):
        if tab[k] != v:
            yield dict(tab, **{k: v})
    for k in ("rows", "ext"):
        for n in list(tab[k]):
            if k == "ext" and len(tab[k]) == 1:
                continue
            yield dict(tab, **{k: {x: y for x, y in tab[k].items() if x != n}})
        for n, (t, f, extra) in tab[k].items():
            if t == "complex" and len(extra) > 1:
                for s in extra:
                    yield dict(tab, **{k: dict(tab[k], **{n: [t, f, {x: y for x, y in extra.items() if x != s}]})})
            for c in f:
                yield dict(tab, **{k: dict(tab[k], **{n: [t, f.replace(c, ""), extra]})})
