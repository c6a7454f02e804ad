"""Misbehaving applications: what a buggy service behind the gateway answers.

Every function damages a correct answer in one way; `model.py` decides whether the result must be
withheld, so a fault that happens to do no harm is judged like any other answer.
"""
import copy
import random

from . import gen, model
from . import spec as S
from .ops import decode

WRONG = dict(gen.WRONG, dateTime=gen.WRONG["dateTime"] + ["2020-01-01T00:00:00"])


def _rng(spec):
    return random.Random(spec["seed"])


def home(res, body, a, make=False):
    if not a.ext:
        return body
    if make and not isinstance(body.get(a.ext), dict):
        body[a.ext] = {}
        if isinstance(body.get("schemas"), list) and a.ext not in body["schemas"]:
            body["schemas"].append(a.ext)
    return body.get(a.ext) if isinstance(body.get(a.ext), dict) else None


def fresh(r, a):
    v = decode(gen.value(r, a, "dump", kc=0, full=0.9))
    if v in ("", []) or v == [{}]:
        v = decode(gen.value(r, a, "dump", kc=0, full=1.0)) or v
    return v


def damage_resource(r, kind, res, body, wanted):
    """Damage one resource of an answer in place; returns the (possibly replaced) body."""
    if kind == "garble":
        return gen_damage(r, body)
    if not isinstance(body, dict):
        return body
    if kind == "leak-never":
        a = r.choice([a for a in res.all() if a.returned == "never"] or res.all())
        h = home(res, body, a, True)
        h[gen.case(r, a.name, 0.2)] = fresh(r, a)
    elif kind == "add-any":
        a = r.choice([a for a in res.all() if a.name not in ("schemas", "meta", "id")])
        home(res, body, a, True)[a.name] = fresh(r, a)
    elif kind == "add-unwanted":
        pool = []
        for a in res.all():
            if a.returned in ("always", "never") or not wanted:
                continue
            keys = [(a.ext, a.name, None)] + [(a.ext, a.name, s.name) for s in a.subs]
            bad = [k for k in keys if (not wanted.covers(*k) if wanted.include else wanted.listed(k))]
            pool += [(a, k) for k in bad]
        if not pool:
            return damage_resource(r, "leak-never", res, body, wanted)
        asked = {x[1].lower() for x in wanted.tops | wanted.subs}
        near = [x for x in pool if x[0].name.lower() in asked]       # what looks like something the client asked for
        other = [x for x in near if (x[0].ext, x[0].name) not in {y[:2] for y in wanted.tops | wanted.subs}]
        a, k = r.choice(other if other and r.random() < 0.6 else near if near and r.random() < 0.4 else pool)
        h = home(res, body, a, True)
        if k[2] and not (wanted.include and not wanted.covers(*k[:2], None)):
            s = a.sub(k[2])
            v = fresh(r, s)
            if a.mv:
                items = h.get(a.name) if isinstance(h.get(a.name), list) else None
                if not items:
                    items = h[a.name] = [{x.name: fresh(r, x) for x in a.subs if x.required}]
                items[r.randrange(len(items))][s.name] = v
            else:
                if not isinstance(h.get(a.name), dict):
                    h[a.name] = {}
                h[a.name][s.name] = v
        else:
            h[a.name] = fresh(r, a)
    elif kind == "drop-required":
        pool = [(a, None) for a in res.all() if a.required]
        for a in res.all():
            pool += [(a, s) for s in a.subs if s.required]
        a, s = r.choice(pool)
        h = home(res, body, a)
        if h is None or a.name not in h:
            return body
        if s is None:
            if r.random() < 0.6:
                del h[a.name]
            else:
                h[a.name] = r.choice([None, "", []])
        elif isinstance(h[a.name], list) and h[a.name]:
            it = r.choice(h[a.name])
            if r.random() < 0.6:
                it.pop(s.name, None)
            else:
                it[s.name] = None
    elif kind == "empty":
        a = r.choice(res.all())
        h = home(res, body, a)
        if h is not None and a.name in h:
            h[a.name] = r.choice([None, "", [], {}])
    elif kind == "wrong-type":
        pool = []
        for a in res.all():
            h = home(res, body, a)
            if h is None or a.name not in h or h[a.name] is None:
                continue
            v = h[a.name]
            if a.mv and isinstance(v, list):
                pool.append((h, a.name, a, "list"))
                for i, x in enumerate(v):
                    pool.append((v, i, a, "one"))
                    if isinstance(x, dict):
                        pool += [(x, s.name, s, "one") for s in a.subs if s.name in x]
            else:
                pool.append((h, a.name, a, "one"))
                if isinstance(v, dict):
                    pool += [(v, s.name, s, "one") for s in a.subs if s.name in v]
        if pool:
            if r.random() < 0.5:             # rare types are as likely as strings
                t = r.choice(sorted({x[2].type for x in pool}))
                pool = [x for x in pool if x[2].type == t]
            h, k, a, how = r.choice(pool)
            if how == "list":
                h[k] = r.choice(["x", 1, {"a": 1}, True])
            else:
                h[k] = r.choice(WRONG[a.type])
    elif kind == "canonical":
        a = r.choice(res.all())
        pool = [a for a in res.all() if any(s.canonical for s in a.subs)] or [a]
        a = r.choice(pool)
        h = home(res, body, a, True)
        it = {x.name: fresh(r, x) for x in a.subs if x.required}
        it["type"] = r.choice(["none", "eth", "WIFI", "work", "Home", "direct"])
        if a.type == "complex" and a.mv:
            h[a.name] = (h.get(a.name) or []) + [it]
    elif kind == "primaries":
        pool = [a for a in res.all() if a.mv and a.sub("primary")]
        if pool:
            a = r.choice(pool)
            h = home(res, body, a, True)
            it = {x.name: fresh(r, x) for x in a.subs if x.required}
            h[a.name] = list(h.get(a.name) or []) + [dict(it, primary=True) for _ in range(r.choice([1, 2]))]
    elif kind == "schemas":
        v = list(body.get("schemas") or [])
        how = r.randrange(7)
        if how == 0:
            v = [x for x in v if x.lower() != res.core.lower()]
        elif how == 1:
            v = [x for x in v if res.ext is None or x.lower() != res.ext.lower()]
        elif how == 2:
            v.append(r.choice(["urn:x:unknown", S.CORE_USER, S.CORE_GROUP, S.CORE_DEVICE, S.ENT_USER, ""]))
        elif how == 3:
            v = [x.upper() for x in v]
        elif how == 4:
            v = r.choice([[], None, "x", [1], [None]])
        elif how == 5 and res.ext and res.ext not in v:
            v.append(res.ext)
        else:
            v = v + v
        body["schemas"] = v
    elif kind == "resource-type":
        if isinstance(body.get("meta"), dict):
            body["meta"]["resourceType"] = r.choice(
                [res.name.lower(), "User", "Group", "Device", "", None, res.plural, res.name + " "])
    elif kind == "id":
        body["id"] = r.choice(["bulkId", "bulkId:1", "xbulkIdy", None, "", 7, "BULKID"])
    elif kind == "location":
        if isinstance(body.get("meta"), dict):
            body["meta"]["location"] = r.choice(
                [gen.location(res, "other"), None, "", gen.location(res, body.get("id")).upper(), 5])
    return body


def gen_damage(r, body):
    """Structural damage of Python content (datetimes included)."""
    tagged = tag(body)
    return decode(gen.damage(r, tagged))


def tag(v):
    if isinstance(v, dict):
        return {k: tag(x) for k, x in v.items()}
    if isinstance(v, list):
        return [tag(x) for x in v]
    if hasattr(v, "isoformat"):
        return {"$dt": v.isoformat()}
    return v


ODD_NAMES = ["xtra", "Note", "urn:x:unknown:ext", "displayname2", "$x", 5, None, True, (1, 2), S.CORE_USER, S.CORE_GROUP, S.CORE_DEVICE]
ODD_VALUES = [1, "x", None, [], {}, [{}], {"value": 1}, {"a": {"b": [1]}}, True, 10 ** 400]


def sloppy(r, v, top=True):
    """The same content in other words: other letter case of names, members nobody asked for."""
    if isinstance(v, list):
        return [sloppy(r, x, False) for x in v]
    if not isinstance(v, dict):
        return v
    out = {}
    p = r.choice([0, 0.15, 0.5])
    for k, x in v.items():
        out[gen.case(r, k, p) if isinstance(k, str) else k] = sloppy(r, x, False)
    low = {k.lower() for k in out if isinstance(k, str)}
    if r.random() < (0.6 if top else 0.2):
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(ODD_NAMES)
            if not (isinstance(k, str) and k.lower() in low):
                out[k] = copy.deepcopy(r.choice(ODD_VALUES if k not in gen.CORES else gen.NESTED))
    return out


def layered(fn):
    """Sloppy applications may be wrong as well."""
    def outer(spec, *a, **k):
        out = fn(spec, *a, **k)
        r = random.Random(spec["seed"] + 1)
        if spec["kind"] == "sloppy" or r.random() < 0.12:
            return (sloppy(r, out[0]),) + tuple(out[1:])
        return out
    return outer


PRESENCE = ["leak-never", "add-any", "add-unwanted", "add-unwanted", "drop-required", "empty"]
CONTENT = ["sloppy", "wrong-type", "canonical", "primaries", "schemas", "resource-type", "id", "location"]
ENVELOPE = ["status", "header", "no-header"]
TWINS = ["twin-" + k for k in ("leak-never", "add-any", "add-unwanted", "empty")]
LISTS = ["total", "fewer", "more", "per-page", "start", "no-page-info", "shuffle", "foreign-item",
         "sloppy", "list-schemas", "status", "mutate-item", "item-junk", "resources-junk", "swap"]
BULK = ["sloppy", "b-location", "b-version", "b-status", "b-method", "b-bulkid", "b-errors", "b-error-status",
        "b-drop", "b-schemas", "b-response", "b-item", "status"]


@layered
def answer(spec, res, kind, body, status, headers, wanted):
    r = _rng(spec)
    k = spec["kind"]
    body = copy.deepcopy(body)
    headers = dict(headers or {})
    if kind == "error" and k != "sloppy":
        return error_answer(r, k, body, status)
    if k == "status":
        return body, r.choice([200, 201, 202, 204, 400, 404, 500, 302, 0]), headers
    if k == "sloppy":
        return body, status, headers
    if kind == "delete":
        return body, r.choice([204, 200, 404, 201, 0]), headers
    if k == "header":
        loc = headers.get("Location") or gen.location(res, "elsewhere")
        headers["Location"] = r.choice([near(r, loc), near(r, loc), loc + "x", gen.location(res, "zz"), ""])
        return body, status, headers
    if k == "no-header":
        headers.pop("Location", None)
        return body, status, headers
    return damage_resource(r, k, res, body, wanted), status, headers


def ODD_STATUS(n):
    """Texts that a careless comparison takes for the number."""
    return ["0%s" % n, " %s" % n, "%s " % n, "+%s" % n, "%s.0" % n, "%s\n" % n, str(n)[:-1], str(n) + "0",
            "%s_%s" % (str(n)[:1], str(n)[1:]), str(n)[:-1] + "\u00b2",
            "".join(chr(0x660 + int(c)) for c in str(n)), "".join(chr(0xff10 + int(c)) for c in str(n))]


def error_answer(r, k, body, status):
    how = r.randrange(8)
    if k == "status" or how == 0:
        status = r.choice([200, 400, 404, 409, 500, 600, 199, 599])
    elif how == 1:
        body["status"] = r.choice(
            ["200", "404", "400", "", None, 400, 404, "x", " 400"] + ODD_STATUS(status) * 2)
    elif how == 2:
        body["schemas"] = r.choice([[], None, ["urn:x"], [S.MSG + "Error", "urn:x"],
                                    [(S.MSG + "Error").upper()], [S.MSG + "ListResponse"]])
    elif how == 3:
        body["scimType"] = r.choice([1, "noTarget", "x", None])
    elif how == 4:
        body.pop(r.choice(sorted(body)))
    elif how == 5:
        body["detail"] = r.choice([1, None, "", ["x"]])
    elif how == 6:
        status = r.choice([200, 299, 300, 599, 600, 100])
        body["status"] = str(status)
    else:
        body = gen_damage(r, body)
    return body, status, {}


@layered
def list_answer(spec, ress, body, status, wanted, ctx):
    r = _rng(spec)
    k = spec["kind"]
    body = copy.deepcopy(body)
    rs = body["Resources"]
    if k == "garble":
        return gen_damage(r, body), status, {}
    if k == "status":
        return body, r.choice([201, 204, 400, 404, 500]), {}
    if k == "total":
        body["totalResults"] = r.choice([0, len(rs) - 1, len(rs), len(rs) + 1, None, "1", len(rs) + 7, 1.5])
    elif k == "fewer" and rs:
        rs.pop(r.randrange(len(rs)))
        if r.random() < 0.7:
            body["itemsPerPage"] = len(rs)
        if r.random() < 0.3:
            body["totalResults"] = len(rs)
    elif k == "more" and rs:
        rs.append(copy.deepcopy(r.choice(rs)))
        if r.random() < 0.7:
            body["itemsPerPage"] = len(rs)
        if r.random() < 0.7:
            body["totalResults"] = max(len(rs), body["totalResults"])
    elif k in TWINS and rs:
        i = r.randrange(len(rs))                 # the same resource again, but not quite
        res = model_type(ress, rs[i])
        x = damage_resource(r, k[5:], res, copy.deepcopy(rs[i]), wanted(res) if wanted else None)
        rs.insert(r.choice([0, i, i + 1, len(rs)]), x)
        body["itemsPerPage"] = len(rs)
        body["totalResults"] = max(len(rs), body["totalResults"])
    elif k == "per-page":
        body["itemsPerPage"] = r.choice([len(rs) + 1, len(rs) - 1, 0, None, "x", len(rs)])
    elif k == "start":
        body["startIndex"] = r.choice([0, 1, 2, 3, ctx["start"] + 1, None, -1, "1"])
    elif k == "no-page-info":
        for n in r.sample(["startIndex", "itemsPerPage"], r.choice([1, 2])):
            body.pop(n)
    elif k == "shuffle":
        r.shuffle(rs)
    elif k == "swap" and len(rs) > 1:
        i = r.randrange(len(rs) - 1)
        rs[i], rs[i + 1] = rs[i + 1], rs[i]
    elif k == "foreign-item":
        res = r.choice(list(S.RESOURCES.values()))
        rs.append(decode(gen.resource(r, res, "dump", kc=0)))
        body["itemsPerPage"] = len(rs)
        body["totalResults"] = max(len(rs), body["totalResults"])
    elif k == "list-schemas":
        body["schemas"] = r.choice([[], None, ["urn:x"], [S.MSG + "ListResponse", "urn:x"], [S.MSG + "Error"],
                                    [(S.MSG + "ListResponse").lower()], [S.CORE_USER]])
    elif k == "item-junk" and rs:
        rs[r.randrange(len(rs))] = r.choice([None, 1, "x", [], {}, {"schemas": []}, {"schemas": ["urn:x"]}])
    elif k == "resources-junk":
        body["Resources"] = r.choice([None, [], {}, "x", 1, [None]])
        if r.random() < 0.3:
            body.pop("Resources")
    elif k == "mutate-item" and rs:
        x = r.choice(rs)
        res = model_type(ress, x)
        names = [a for a in res.all() if a.returned in ("default", "always") and a.name not in ("schemas", "meta")]
        a = r.choice(names)
        home(res, x, a, True)[a.name] = fresh(r, a)
    elif rs and k in PRESENCE + CONTENT:
        i = r.randrange(len(rs))
        res = model_type(ress, rs[i])
        rs[i] = damage_resource(r, k, res, rs[i], wanted(res) if wanted else None)
    return body, status, {}


def model_type(ress, x):
    j = model.judge(model.type_of, ress, x)
    return j[1] if j[0] == "ok" else ress[0]


def near(r, s):
    """Another text that a careless comparison takes for the same."""
    return r.choice([s + "/", s[:-1], s.swapcase(), s.upper(), s.lower(), s + " ", " " + s, s + "0", s[1:], s.removeprefix("W/"),
                     "W/" + s, s.strip('"'), s.replace('"', ""), s.replace("https", "http"), s + "?x=1", s + "#x", s.replace("/v2", "")])


@layered
def bulk_answer(spec, resp, status):
    r = _rng(spec)
    k = spec["kind"]
    resp = copy.deepcopy(resp)
    ops = resp["Operations"]
    if k == "garble":
        return gen_damage(r, resp), status
    if k == "status":
        return resp, r.choice([201, 204, 400, 500, 202])
    if k == "b-schemas":
        resp["schemas"] = r.choice([[], None, ["urn:x"], [S.MSG + "BulkRequest"], [S.MSG + "BulkResponse", "urn:x"]])
        return resp, status
    if k == "b-drop" and ops:
        ops.pop(r.randrange(len(ops)))
        return resp, status
    if not ops:
        return resp, status
    o = r.choice(ops)
    if k == "b-location":
        was = o.get("location")
        o["location"] = r.choice([None, "", "x", "https://example.com/v2/Nope/1", 5, "https://example.com/v2/%sArchive/1" % r.choice(["Users", "Groups", "Devices"]),
                                  "https://example.com/v2/Old%s/1" % r.choice(["Users", "Groups"]), "https://example.com/v2/Users",
                                  "https://example.com/v2/users/1", "https://example.com/v2/Users-1/2",
                                  gen.location(S.USER, "q"), gen.location(S.GROUP, "q")])
        if r.random() < 0.3:
            o.pop("location")
        elif r.random() < 0.4 and isinstance(was, str):
            o["location"] = near(r, was)
    elif k == "b-version" and r.random() < 0.4:
        resp_ = o.get("response")
        if isinstance(resp_, dict) and isinstance(resp_.get("meta"), dict):
            o["version"] = o.get("version") or 'W/"x"'
            resp_["meta"].pop("version", None)
    elif k == "b-version" and isinstance(o.get("version"), str) and r.random() < 0.5:
        o["version"] = near(r, o["version"])
    elif k == "b-version":
        o["version"] = r.choice(['W/"x"', None, "", 1])
    elif k == "b-status":
        o["status"] = r.choice(["200", "201", "204", "404", "500", None, "", "x", 200, "99", "299", "300", "302", "\u00b2", "20\u00b2", "\u2460", "\u4e8c"] + ODD_STATUS("200"))
    elif k == "b-method":
        o["method"] = r.choice(["POST", "PUT", "PATCH", "DELETE", "GET", "put", "HEAD", None, ""])
    elif k == "b-bulkid":
        if r.random() < 0.5:
            o.pop("bulkId", None)
        else:
            o["bulkId"] = r.choice([None, 1, "", "zz"])
    elif k in ("b-errors", "b-error-status"):
        for o in (ops if k == "b-errors" else [o]):
            if r.random() < 0.6 or k == "b-error-status":
                st = r.choice(["400", "404", "500", "307", "300", "599"])
                o["status"] = st
                o["response"] = {"schemas": [S.MSG + "Error"], "status": st, "detail": "x"}
                if k == "b-error-status":
                    o["response"]["status"] = r.choice(["400", "404", "500", "600", "", None] + ODD_STATUS(st))
                if r.random() < 0.2:
                    o.pop("version", None)
    elif k == "b-response":
        o["response"] = r.choice([None, {}, "x", [], {"schemas": [S.MSG + "Error"], "status": "404"}, 5])
        if r.random() < 0.3:
            o.pop("response")
    elif k == "b-item":
        ops[r.randrange(len(ops))] = r.choice([None, {}, "x", []])
    elif isinstance(o.get("response"), dict) and k in PRESENCE + CONTENT:
        res = next((x for x in S.RESOURCES.values() if "/%s/" % x.plural in str(o.get("location"))), None)
        if res and str(o.get("status", "")).startswith("2"):
            o["response"] = damage_resource(r, k, res, o["response"], None)
    return resp, status
