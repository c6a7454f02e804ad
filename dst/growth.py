"""C18: progress.  Every operation ends, and the steps it takes grow at most with the square of the
size of what it is given.  The clock is the number of lines of /repo/src executed."""
import collections
import signal
import sys

from . import gen, iso, pool, traffic, world
from . import spec as S
from .isoprops import _hash
from .ops import decode

TOOL = 4
LIMIT = 40_000_000
SECONDS = 90


class Steps:
    """Counts executed lines of the code under test; gives up at a limit."""

    def __init__(self):
        self.n, self.limit, self.gone = 0, LIMIT, False
        self.home = world.REPO + "/src"
        m = sys.monitoring
        m.use_tool_id(TOOL, "growth")
        m.register_callback(TOOL, m.events.LINE, self.line)

    def line(self, code, _):
        if not code.co_filename.startswith(self.home):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n > self.limit:
            self.gone = True
            raise TooLong()

    def late(self, *_):
        self.gone = True            # busy where no line of the code under test runs (say, inside a regular expression)
        raise TooLong()

    def of(self, f, limit):
        self.n, self.limit, self.gone = 0, limit, False
        m = sys.monitoring
        m.set_events(TOOL, m.events.LINE)
        out = "answered"
        signal.signal(signal.SIGALRM, self.late)
        signal.alarm(SECONDS)
        try:
            f()
        except TooLong:
            pass
        except Exception as e:  # noqa
            out = "raised " + type(e).__name__
        finally:
            signal.alarm(0)
            m.set_events(TOOL, 0)
        if self.gone:
            out = "still busy"
        return self.n, out


class TooLong(BaseException):
    pass


# ------------------------------------------------------------------ families of growing messages
def flt(r, f):
    res = r.choice(list(S.RESOURCES.values()))
    one = [traffic.render(r, traffic.cond(r, res, 3)) for _ in range(3)]
    one = [x for x in one if len(x) < 120] or ['userName eq "a"']
    f.update(res=res.key, one=one, text=r.choice(["a) and [ ", "|&PLACE_HOLDER_0&|", "|&PLACE_HOLDER_12&| ", "(", "\\\\", "' or "]), shape=r.choice(
        ["and", "or", "andor", "par", "not", "groups", "inner", "open", "close", "spaces", "text", "quotes", "names", "word", "word"]))
    f.update(word=word(r), where=r.choice(["name", "sub", "schema", "value", "inner", "operator", "bare"]))


LETTERS = ["a", "a", "-", "1", "_", "$", ":", ".", "a:", "a.", "a-", "/", " ", "=", "+", "%2F", "(", "'", "\\", "a,", "\t", "e9", "T", "[", "]", "é"]


def word(r):
    """A long word of few different letters that may be spoiled at its end (or start)."""
    return {"of": [r.choice(LETTERS) for _ in range(r.choice([1, 1, 1, 2]))], "pre": r.choice(["", "", "a", "http://", "urn:"]),
            "end": r.choice(["", "!", "!", "!", " ", "\n", "a", ":", "é", "\x00"])}


def word_of(w, n):
    return w["pre"] + "".join(w["of"]) * n * 8 + w["end"]


def filter_text(f, n):
    k = f["shape"]
    t = f["one"] * n
    if k in ("and", "or"):
        return (" %s " % k).join(t)
    if k == "andor":
        return "".join(x + (" and " if i % 2 else " or ") for i, x in enumerate(t)) + "id pr"
    if k == "par":
        return "(" * n + t[0] + ")" * n
    if k == "not":
        return "not (" * n + t[0] + ")" * n
    if k == "groups":
        return " and ".join("(%s or id pr)" % x for x in t)
    if k == "inner":
        return "emails[" + " or ".join(['type eq "w%d"' % i for i in range(n)]) + "]"
    if k == "open":
        return "(" * n + t[0]
    if k == "close":
        return t[0] + "]" * n
    if k == "spaces":
        return "userName" + " " * n * 8 + "eq" + " " * n * 8 + '"a"'
    if k == "text":
        return 'userName eq "' + f["text"] * n + '"'
    if k == "quotes":
        return 'userName eq ' + '"' * n
    if k == "word":
        t = word_of(f["word"], n)
        return {"name": t + " pr", "sub": "name." + t + ' eq "x"', "schema": t + ":userName pr", "value": "userName eq " + t,
                "inner": "emails[" + t + " pr]", "operator": "userName " + t + ' "a"', "bare": t}[f["where"]]
    return ".".join(["a"] * n) + " pr"


PLACES = ["attributes", "excludeAttributes", "sortBy", "path", "filtered path", "key", "schemas", "value", "value", "value",
          "count", "bulk path", "location"]


def words(r, f):
    res = r.choice(list(S.RESOURCES.values()))
    f.update(res=res.key, word=word(r), place=r.choice(PLACES), base=gen.resource(r, res, "parse", 0, 0.4, False))


def spread(x, t):
    """The text in place of every text."""
    if isinstance(x, str):
        return t
    if isinstance(x, list):
        return [spread(i, t) for i in x]
    if isinstance(x, dict):
        return {k: v if k == "schemas" else spread(v, t) for k, v in x.items()}
    return x


def words_call(w, f, n):
    t, k, res = word_of(f["word"], n), f["place"], f["res"]
    if k in ("attributes", "excludeAttributes"):
        return lambda: w.v[res, "get"].parse_request(query_string={k: t})
    if k in ("sortBy", "count"):
        return lambda: w.v[res, "list"].parse_request(query_string={k: t})
    if k in ("path", "filtered path"):
        p = t if k == "path" else 'emails[type eq "w"].' + t
        return lambda: w.v[res, "patch"].parse_request(body={
            "schemas": [S.MSG + "PatchOp"], "Operations": [{"op": "add", "path": p, "value": 1}]})
    if k == "bulk path":
        return lambda: w.v["*", "bulk"].parse_request(body={
            "schemas": [S.MSG + "BulkRequest"], "Operations": [{"method": "PUT", "path": "/" + t, "data": {}}]})
    b = decode(f["base"])
    if k == "location":
        b.update(id="1", meta={"location": t})
        return lambda: w.v[res, "get"].dump_response(status_code=200, headers={"Location": t}, body=b)
    if k == "key":
        b[t] = {t: 1}
    elif k == "schemas":
        b["schemas"] = [t]
    else:
        b = spread(b, t)
    return lambda: w.v[res, "post"].parse_request(body=b)


def body(r, f):
    res = r.choice(list(S.RESOURCES.values()))
    a = r.choice([x for x in res.all() if x.mv and x.name != "schemas"])
    f.update(res=res.key, attr=a.name, kind=r.choice(["post", "put"]), how=r.choice(["items", "items", "bad", "unknown", "schemas", "long", "deep"]),
             items=[gen.value(r, a, "parse", 0) or [None] for _ in range(3)], base=gen.resource(r, res, "parse", 0, 0.2, False))


def body_of(f, n):
    res = S.RESOURCES[f["res"]]
    b = decode(f["base"])
    a = next(x for x in res.all() if x.name == f["attr"])
    home = b
    if a.ext:
        home = b.setdefault(a.ext, {})
        if a.ext not in b["schemas"]:
            b["schemas"].append(a.ext)
    k = f["how"]
    if k == "items":
        pool_ = [x for i in f["items"] for x in i]
        home[a.name] = pool_ * n
    elif k == "bad":
        home[a.name] = [5, "x", {"type": 1, "value": []}] * n
    elif k == "unknown":
        b.update({"key%d" % i: i for i in range(n)})
    elif k == "schemas":
        b["schemas"] = b["schemas"] + ["urn:x:%d" % i for i in range(n)]
    elif k == "long":
        b["externalId"] = "a.b:c/" * n * 4
    else:
        v = 1
        for i in range(min(n, 120)):
            v = {"a": v} if i % 2 else [v]
        home[a.name] = v
    return b


def patch(r, f):
    res = r.choice(list(S.RESOURCES.values()))
    paths = {}
    f.update(res=res.key, ops=traffic.patch_body(r, res, paths, 4)["Operations"])


def patch_of(f, n):
    return {"schemas": [S.MSG + "PatchOp"], "Operations": decode(f["ops"] * n)}


def listing(r, f):
    res = r.choice(list(S.RESOURCES.values()))
    f.update(res=res.key, items=[gen.resource(r, res, "dump", 0, 0.1) for _ in range(4)], sort=r.random() < 0.4,
             filter=traffic.render(r, traffic.cond(r, res, 2)) if r.random() < 0.4 else None,
             root=r.random() < 0.3)


def bulk(r, f):
    f.update(ops=[traffic.bulk_op(r, {}, 0.3) for _ in range(4)])


def names(r, f):
    res = r.choice(list(S.RESOURCES.values()))
    f.update(res=res.key, names=traffic.names(r, list(S.RESOURCES.values()), 6), base=gen.resource(r, res, "dump", 0, 0.2))


def call(w, f, n):
    """A call of the real code with a message of size n."""
    if f["family"] == "filter":
        t = filter_text(f, n)
        return lambda: w.v[f["res"], "list"].parse_request(query_string={"filter": t})
    if f["family"] == "words":
        return words_call(w, f, n)
    if f["family"] == "body":
        b = body_of(f, n)
        return lambda: w.v[f["res"], f["kind"]].parse_request(body=b)
    if f["family"] == "patch":
        b = patch_of(f, n)
        return lambda: w.v[f["res"], "patch"].parse_request(body=b)
    if f["family"] == "bulk":
        b = {"schemas": [S.MSG + "BulkRequest"], "Operations": decode(f["ops"] * n)}
        return lambda: w.v["*", "bulk"].parse_request(body=b)
    if f["family"] == "names":
        q = {"attributes": f["names"] * n}
        b = decode(f["base"])

        def both():
            req, _ = w.v[f["res"], "get"].parse_request(query_string=q)
            w.v[f["res"], "get"].dump_response(
                status_code=200, body=b, presence_checker=(req.query_string or {}).get("presence_checker"))
        return both
    items = decode(f["items"] * n)
    kw = {}
    q = {}
    if f["filter"]:
        q["filter"] = f["filter"]
    if f["sort"]:
        q["sortBy"] = "id"
    v = w.v["*", "root"] if f["root"] else w.v[f["res"], "list"]

    def listed():
        req, _ = v.parse_request(query_string=q)
        got = req.query_string or {}
        if got.get("filter"):
            kw["filter_"] = got["filter"]
        if got.get("sorter"):
            kw["sorter"] = got["sorter"]
        v.dump_response(status_code=200, body={
            "schemas": [S.MSG + "ListResponse"], "totalResults": len(items), "itemsPerPage": len(items), "startIndex": 1,
            "Resources": items}, **kw)
    return listed


FAMILIES = {"filter": (flt, (4, 12)), "body": (body, (4, 20)), "patch": (patch, (1, 3)),
            "list": (listing, (1, 2)), "bulk": (bulk, (1, 2)), "names": (names, (2, 4)), "words": (words, (2, 16))}
WEIGHTS = ["filter"] * 8 + ["words"] * 8 + ["body"] * 6 + ["patch"] * 3 + ["list", "bulk", "names", "names"]


class C18:
    id = "C18"
    level = "exploration"
    per_block = 9
    rule = ("a run gives one operation a message of size n, 2n and 4n (one of 7 families: filters of 14 shapes, bodies grown in 7 ways, patches, "
            "bulk requests, lists, attribute selections, long words of few letters, sound and spoiled, in every place a text may stand; valid and damaged) and counts the executed lines of the code under test; "
            "non-trivial: always; distinct: hash of the family's parameters")
    stubs = ["clients that send oversized messages"]
    assumptions = ["work inside C code of the interpreter (string search, regular expressions, sorting) is not counted",
                   "nesting depth of JSON stays below 120 (beyond it the JSON parser of the deployment already gives up)"]

    @staticmethod
    def setup():
        pool.zygote(locks=False)

    def blocks(self, tier):
        return {"quick": 220, "thorough": 6000}[tier]

    def scenario(self, r):
        f = {"family": r.choice(WEIGHTS)}
        make, size = FAMILIES[f["family"]]
        make(r, f)
        f["n"] = r.randint(*size)
        return f

    def judge(self, scn):
        def run():
            w = world.World(max_operations=100000)
            st = Steps()
            got = []
            st.of(call(w, scn, 1), LIMIT)        # whatever is worked out once only
            for k in (1, 2, 4):
                # a bound that only runaway work reaches
                limit = LIMIT if not got else got[-1][0] * 12 + 1_000_000
                got.append(st.of(call(w, scn, scn["n"] * k), min(limit, LIMIT)))
                if got[-1][1] == "still busy":
                    break
            return got
        tag, got = pool.in_child(run)
        if tag != "ok":
            raise pool.ChildError("growth run ended: %s" % tag)
        got = [tuple(x) for x in got]
        bad = None
        steps = [x[0] for x in got]
        if got[-1][1] == "still busy":
            bad = "an operation does not end"
        elif steps[2] - steps[1] > 6 * max(0, steps[1] - steps[0]) + 20_000:
            bad = "the work for an operation grows faster than the square of its size"
        if bad:
            bad = {"class": "progress", "label": "%s: %s" % (scn["family"], bad), "detail": bad,
                   "op": {k: v for k, v in scn.items() if k not in ("base",)},
                   "got": {"sizes": [scn["n"] * k for k in (1, 2, 4)], "steps": steps}, "want": "at most quadratic growth"}
        return bad, {"got": got, "stats": {}}

    def block(self, seed, b, tier, over):
        st = collections.Counter()
        sigs, dig = [], []
        res = {"runs": 0, "violation": None, "sample": None}
        for i in range(self.per_block):
            if i and over():
                break
            scn = self.scenario(iso.rng_of(self.id, seed, b, i))
            bad, out = self.judge(scn)
            res["runs"] += 1
            st["family " + scn["family"]] += 1
            st["steps"] += sum(x[0] for x in out["got"])
            st["longest operation (steps)"] = max(st["longest operation (steps)"], max(x[0] for x in out["got"]))
            st["fault oversized message"] += 2
            for x in out["got"]:
                st[x[1]] += 1
            sigs.append(_hash(scn))
            dig.append(_hash([scn, out]))
            if res["sample"] is None:
                res["sample"] = {"family": scn["family"], "n": scn["n"], "steps": [x[0] for x in out["got"]]}
            if bad:
                res.update(violation=bad, scenario=scn, run=[b, i])
                break
        res.update(stats=st, sigs=sigs, digest=_hash(dig))
        return res

    def shrink(self, scn):
        for n in range(2, scn["n"]):
            yield dict(scn, n=n)
        if scn.get("one") and len(scn["one"]) > 1:
            for x in scn["one"]:
                yield dict(scn, one=[x])


GROW = {"C18": C18}
