"""A simulated deployment around the real code.

clients --- network --- gateway nodes (real pyscim) --- application --- durable store

The network loses, duplicates, delays, reorders and corrupts messages; nodes crash before or after
the application commits and come back with nothing but the store; the application's clock jumps;
the application answers wrongly.  A scenario is an explicit list of messages and their fates, so a
scenario is one exactly repeatable execution.  Every step is compared with `model.py`.
"""
import copy
import heapq
import json
import random
import signal
from datetime import datetime, timedelta, timezone

from . import docs, faults, gen, model, spots, world
from . import spec as S
from .canon import plain, scrub
from .ops import decode

T0 = datetime(2024, 2, 28, 23, 59, 50, tzinfo=timezone.utc)
URNS = {u.lower() for x in S.RESOURCES.values() for u in (x.core, x.ext) if u}
METHODS = {"POST": "post", "PUT": "put", "PATCH": "patch", "GET": "get", "DELETE": "delete"}


class Broken(Exception):
    """The code under test deviates.  kind: what was violated."""

    def __init__(self, kind, detail, got=None, want=None, op=None, cat=None):
        super().__init__(detail)
        self.kind, self.detail, self.got, self.want, self.op = kind, detail, got, want, op
        self.cat, self.where = cat, None


class Stuck(BaseException):
    """The code under test does not come back."""


def stuck(*_):
    raise Stuck()


def show(v):
    """JSON-able view of content for reports and comparisons."""
    if isinstance(v, dict):
        return {(k if isinstance(k, str) else "key " + repr(k)): show(v[k]) for k in v}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, datetime):
        return {"$dt": v.isoformat()}
    if isinstance(v, float):
        return ["float", repr(v)]
    if v is None or isinstance(v, (str, int, bool)):
        return v
    return scrub(repr(v))


def same(x, y):
    return json.dumps(show(x), sort_keys=True) == json.dumps(show(y), sort_keys=True)


def issues_of(issues):
    return issues.to_dict()


class Sim:
    def __init__(self, scn):
        self.scn = scn
        self.nodes = []
        self.store = {k: {} for k in S.RESOURCES}       # durable: what the application wrote
        self.ref = {k: {} for k in S.RESOURCES}         # what it must contain
        self.serial = 0
        self.clock = T0
        self.stats = {}
        self.inbox = []                                  # what clients received
        self.log = []

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    # ---------------------------------------------------------------- event loop
    @staticmethod
    def start():
        """A node of the deployment: schemas and validators made of the configuration, which is a correct one."""
        try:
            return world.World()
        except Exception as e:  # noqa
            raise Broken("start", "the schemas and validators can not be built: %s: %s" % (type(e).__name__, e))

    def run(self):
        self.nodes = [self.start() for _ in range(self.scn.get("nodes", 1))]
        queue = []
        n = 0
        for i, ev in enumerate(self.scn["events"]):
            if not ev["via"]:
                self.count("fault message lost")
            if len(ev["via"]) > 1:
                self.count("fault message duplicated")
            for d in ev["via"]:
                if d.get("delay"):
                    self.count("fault message delayed")
                heapq.heappush(queue, (i + d.get("delay", 0), n, ev, d))
                n += 1
        while queue:
            at, _, ev, d = heapq.heappop(queue)
            self.clock += timedelta(seconds=1)
            if ev.get("jump"):
                self.clock += timedelta(seconds=ev["jump"])
                self.count("fault clock jump")
            self.deliver(ev["msg"], d)
            self.log.append([at, ev["msg"]["m"]])
        self.settle()

    def settle(self):
        """Faults have stopped: every resource can be read as last written, whichever node is asked."""
        n = 0
        for k in S.RESOURCES:
            for rid in sorted(self.store[k]):
                self.deliver({"m": "GET", "res": k, "rid": rid, "query": {}}, {"node": n})
                n += 1
        self.count("final reads", n)

    # ---------------------------------------------------------------- calls into the real code
    def call(self, what, f, **kw):
        try:
            data, issues = f(**kw)
        except Exception as e:  # noqa
            raise Broken("raised", "%s raised %s: %s" % (what, type(e).__name__, scrub(str(e))),
                         op=show({k: plain(v) for k, v in kw.items() if k in ("body", "query_string")}))
        self.count("calls into the code under test")
        return data, issues

    # ---------------------------------------------------------------- one delivery
    def deliver(self, msg, d):
        m = dict(msg)
        if "body" in d:
            m["body"] = d["body"]
            self.count("fault message corrupted")
        if "query" in d:
            m["query"] = d["query"]
            self.count("fault message corrupted")
        node = d.get("node", 0) % len(self.nodes)
        self.count("deliveries")
        signal.signal(signal.SIGALRM, stuck)
        signal.alarm(60)                          # thousands of times what any delivery takes
        try:
            {"LIST": self.on_list, "ROOT": self.on_list, "SEARCH": self.on_list,
             "BULK": self.on_bulk, "SCHEMAS": self.on_docs, "TYPES": self.on_docs,
             "CONFIG": self.on_config}.get(m["m"], self.on_object)(m, d, node)
        except Broken as e:
            e.where = m["m"]
            raise
        except Stuck:
            e = Broken("stuck", "%s: no answer" % m["m"], op=show({k: m.get(k) for k in ("body", "query")}))
            e.where = m["m"]
            raise e
        finally:
            signal.alarm(0)

    def crash(self, node):
        self.nodes[node] = self.start()
        self.count("fault node crash")

    def pick(self, res, m):
        ids = sorted(self.store[res.key])
        if m.get("rid"):
            return m["rid"] if m["rid"] in ids else None
        return ids[m.get("slot", 0) % len(ids)] if ids else None

    # ---------------------------------------------------------------- single resources
    def on_object(self, m, d, node):
        w = self.nodes[node]
        res = S.RESOURCES[m["res"]]
        kind = METHODS[m["m"]]
        v = w.v[res.key, kind]
        wanted = None
        checker = None
        if kind != "delete":
            q = decode(m.get("query"))
            sites = self.spot_request(m, d, res, kind)
            req, issues = self.call(m["m"] + " request", v.parse_request,
                                    body=decode(m.get("body")), query_string=q,
                                    headers=decode(m.get("headers")))
            accepted = not issues.has_issues()
            parsed = self.accept(m, res, kind, req, issues, accepted)
            self.named(m, sites, issues)
            if not accepted:
                self.refuse(w, m, d)
                return
            wanted, checker = self.wish(res, m, req)
        rid = self.pick(res, m)
        if kind != "post" and rid is None:
            self.fail(w, 404, "no such resource", m, d)
            return
        if d.get("crash") == "before":
            self.crash(node)
            return
        if kind in ("post", "put", "patch"):
            rid = self.write(res, kind, rid, parsed)
        elif kind == "delete":
            del self.store[res.key][rid], self.ref[res.key][rid]
        if d.get("crash") == "after":
            self.crash(node)
            return
        self.respond(w, m, d, res, kind, rid, wanted, checker)

    # ---------------------------------------------------------------- damage at known places
    def spot_request(self, m, d, res, kind):
        """Damage a conforming request in transit; returns the places the report must name."""
        if "spots" not in d or kind not in ("post", "put", "patch") or self.names_ok(m)[0] != "ok":
            return None
        body = decode(m["body"])
        pre = ("body",)
        if kind == "patch":
            if model.judge(model.parse_patch, res, body, m.get("paths") or {})[0] != "ok":
                return None
            sites = self.spot_patch(d["spots"], res, body[spots.key_of(body, "Operations")], m.get("paths") or {})
            if not sites:
                return None
        else:
            if model.judge(model.parse_write, res, body, m["m"])[0] != "ok":
                return None
            got = spots.damage(d["spots"], res, body, "parse")
            if got is None:
                return None
            body, sites = got
        m["body"] = body
        self.count("fault message damaged at known places")
        return [(spots.flat(pre, p), c) for p, c in sites]

    def spot_patch(self, seed, res, ops, paths):
        sites = []
        for i, o in enumerate(ops):
            k, path = spots.key_of(o, "value"), model.find(o, "path")
            part = (seed >> (8 + 3 * i)) & 7
            if part == 0:
                o[spots.key_of(o, "op")], code = [(5, 2), ("bogus", 14), (["add"], 2), (True, 2)][(seed >> 5) & 3]
                sites.append((("Operations", i, "op"), {code}))
                continue
            if part == 1 and path is not model.ABSENT and path is not None:
                o[spots.key_of(o, "path")] = [5, ["userName"], {}, True][(seed >> 5) & 3]
                sites.append((("Operations", i, "path"), {2}))
                continue
            if k is None or model.find(o, "op").lower() == "remove" or (seed >> i) & 1:
                continue
            attr = None
            if path is not model.ABSENT and path is not None:
                (e, at, sub), _ = model.read_path(res, path, paths)
                attr = next(y for y in res.all() if (y.ext, y.name) == (e, at))
                attr = attr.sub(sub) if sub else attr
            got = spots.damage(seed + i, res, o[k], "parse", ("missing", "schemas"), attr)
            if got is not None:
                o[k] = got[0]
                sites += [(("Operations", i, "value") + p, c) for p, c in got[1]]
        return sites

    def named(self, m, sites, issues, what="request"):
        """The report names all damaged places, says what is wrong there, and names nothing else."""
        if sites is None:
            return
        have = spots.report(issues)
        want = {p: c for p, c in sites}
        values = any(not c <= {15, 19} for c in want.values())
        off = [p for p in have if not any(p[:i] in want for i in range(len(p) + 1))] + [
            p for p in want if not self.told(have.get(p), want[p], values)]
        if off:
            raise Broken("report", "%s %s: the issue report does not name the damaged places" % (m["m"], what),
                         got={"/".join(p): c for p, c in sorted(have.items())},
                         want={"/".join(p): sorted(c) for p, c in sorted(want.items())},
                         op=show(m.get("body")))
        self.count("reports checked")

    @staticmethod
    def told(have, want, values):
        if have is None:                         # presence may be looked at once the values are right
            return values and want <= {15, 19}
        return set(have) <= want

    def accept(self, m, res, kind, req, issues, accepted):
        """Compare the verdict and content of the real parser with the model."""
        if kind == "get":
            j = self.names_ok(m)
            self.verdict(m, j, accepted, issues, "GET")
            return None
        if accepted == (req.body is None):
            raise Broken("half-accepted", "%s: %s" % (
                m["m"], "no issues but no content" if accepted else "content handed over with issues"),
                got=show(plain(req.body)), want=issues_of(issues), op=show(m.get("body")))
        if kind == "patch":
            j = model.judge(model.parse_patch, res, decode(m.get("body")), m.get("paths") or {})
        else:
            j = model.judge(model.parse_write, res, decode(m.get("body")), m["m"])
        jn = self.names_ok(m)
        if jn[0] != "ok" and j[0] != "no":
            j = jn
        self.verdict(m, j, accepted, issues, m["m"])
        if not accepted:
            return None
        self.whole(m, plain(req.body))
        real = self.patch_ops(res, req.body) if kind == "patch" else plain(req.body)
        if j[0] == "ok":
            want = [list(x) for x in j[1]] if kind == "patch" else j[1]
            if not same(real, want):
                raise Broken("content", m["m"] + ": the application gets other content than was sent",
                             got=show(real), want=show(want), op=show(m.get("body")))
            return real, j[1]
        return real, copy.deepcopy(real)

    def whole(self, m, v):
        def walk(x):
            if isinstance(x, str) and x in ("<Invalid>", "<Missing>"):
                raise Broken("half-accepted", m["m"] + ": rejected values inside accepted content",
                             got=show(v), op=show(m.get("body")))
            for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else []):
                walk(y)
        walk(v)

    def names_ok(self, m):
        q = m.get("query")
        if not isinstance(q, dict):
            return "ok", None
        inc, exc = q.get("attributes"), q.get("excludeAttributes")
        if not inc and not exc:
            return "ok", None
        if any(x is not None and not isinstance(x, (str, list)) for x in (inc, exc)):
            return "skip", "odd"
        if inc and exc:
            return "no", "both given"
        names = inc or exc
        names = names.split(",") if isinstance(names, str) else names
        for x in names:
            if not isinstance(x, str) or not all(c.isalnum() or c in ":._" for c in x) or not x:
                return "skip", "odd name"
        if any(x.rpartition(":")[2].count(".") > 1 for x in names):
            return "no", "name"
        if any(not x.rpartition(":")[2].replace(".", "x").replace("_", "x").isalnum() for x in names):
            return "skip", "odd name"
        if any(":" in x and x.rpartition(":")[0].lower() not in URNS for x in names):
            return "skip", "odd name"
        if any(x.endswith(".") or x.rpartition(":")[2].startswith(".") for x in names):
            return "no", "name"
        return "ok", None

    def verdict(self, m, j, accepted, issues, what):
        self.count("judged " + j[0])
        if j[0] == "ok" and not accepted:
            raise Broken("refused", what + ": a conforming message is refused",
                         got=issues_of(issues), want="accepted", op=show({k: m.get(k) for k in ("body", "query")}))
        if j[0] == "no" and accepted:
            raise Broken("accepted", what + ": a message that does not conform is accepted",
                         got="accepted", want="refused: " + str(j[1]),
                         op=show({k: m.get(k) for k in ("body", "query")}))

    def wish(self, res, m, req):
        """The client's attribute selection, as the application gets it from the real code."""
        q = m.get("query") if isinstance(m.get("query"), dict) else {}
        inc, exc = q.get("attributes"), q.get("excludeAttributes")
        names = inc or exc or None
        if isinstance(names, str):
            names = names.split(",")
        checker = (req.query_string or {}).get("presence_checker") if isinstance(
            req.query_string, dict) else None
        if names and not checker:
            raise Broken("selection", "the attribute selection does not reach the application",
                         got=show(plain(req.query_string)), op=show(q))
        if not names:
            return None, None
        return model.Wanted(res, names, bool(inc)), checker

    # ---------------------------------------------------------------- patch
    def patch_ops(self, res, body):
        out = []
        for o in body["Operations"]:
            path = o["path"]
            kind = plain(o["op"])
            v = plain(o["value"]) if kind != "remove" else None
            if not path:
                out.append([kind, None, None, v])
                continue
            rep = path.complex_filter_attr_rep or path.attr_rep
            name = (rep.schema + ":" if rep.schema else "") + rep.attr + (
                "." + rep.sub_attr if rep.sub_attr else "")
            cond = None
            if path.complex_filter is not None:
                cond = condition(path.complex_filter.to_dict()["sub_op"])
            out.append([kind, list(model.resolve(res, name) or [None, name, None]), cond, v])
        return out

    # ---------------------------------------------------------------- the application
    def write(self, res, kind, rid, parsed):
        real, want = parsed
        now = self.clock
        if kind == "post":
            self.serial += 1
            rid = "%s%d" % (res.key[0].lower(), self.serial)
        for st, content in ((self.store, real), (self.ref, want)):
            old = st[res.key].get(rid)
            if kind == "post":
                new = copy.deepcopy(content)
                for k in ("id", "meta"):
                    new.pop(k, None)
                new["id"] = rid
                new["meta"] = {"resourceType": res.name, "created": now,
                               "location": gen.location(res, rid)}
                self.server_parts(res, new)
            elif kind == "put":
                new = merge(self.kept(res, old), content)
            else:
                new = copy.deepcopy(old)
                for o in content:
                    apply_patch(res, new, o)
            if kind != "post":
                self.read_only(res, kind, old, new)
            self.fill(res, new)
            new["meta"] = dict(new.get("meta") or {}, lastModified=now,
                               version='W/"%d"' % (self.serial * 100 + len(self.log)))
            listed = [res.core] + ([res.ext] if res.ext and new.get(res.ext) else [])
            new["schemas"] = listed
            st[res.key][rid] = new
        if not same(self.store[res.key][rid], self.ref[res.key][rid]):
            raise Broken("content", "the stored resource differs from what the client wrote",
                         got=show(self.store[res.key][rid]), want=show(self.ref[res.key][rid]))
        self.count("acknowledged writes")
        return rid

    def server_parts(self, res, new):
        """Attributes only the server issues."""
        n = self.serial
        if res.key == "Device":
            r = random.Random(n)
            for a in res.attrs:
                if a.name in S._COMMON:
                    continue
                if a.mutability == "readOnly":
                    if a.required or r.random() < 0.7:
                        new[a.name] = decode(gen.value(r, a, "dump", 0))
                else:
                    self.server_subs(r, a, new)
            part = new.get(res.ext)
            for a in res.ext_attrs:
                if isinstance(part, dict):
                    if a.mutability == "readOnly":
                        if a.required or r.random() < 0.7:
                            part[a.name] = decode(gen.value(r, a, "dump", 0))
                    else:
                        self.server_subs(r, a, part)
        if res.key == "User":
            new["groups"] = [{"value": "g%d" % n, "display": "group %d" % n, "type": "direct"}]
            ent = new.get(S.ENT_USER)
            if isinstance(ent, dict) and isinstance(ent.get("manager"), dict):
                ent["manager"]["displayName"] = "boss %d" % n

    def fill(self, res, new):
        """What the server has to issue and nobody has written yet."""
        if res.key != "Device":
            return
        r = random.Random(self.serial + 1)
        for a in res.all():
            home = new.get(a.ext) if a.ext else new
            if not isinstance(home, dict) or a.name in S._COMMON:
                continue
            if a.required and a.server and model.empty(home.get(a.name)):
                home[a.name] = decode(gen.value(r, a, "dump", 0))
            v = home.get(a.name)
            for x in v if isinstance(v, list) else [v]:
                for t in a.subs:
                    if isinstance(x, dict) and t.required and t.server and model.empty(x.get(t.name)):
                        x[t.name] = decode(gen.value(r, t, "dump", 0))

    @staticmethod
    def server_subs(r, a, home):
        v = home.get(a.name)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                for s in a.subs:
                    if s.mutability == "readOnly" and r.random() < 0.7:
                        x[s.name] = decode(gen.value(r, s, "dump", 0))

    def kept(self, res, old):
        out = {}
        for e, a, s in model.read_only_paths(res):
            home = old.get(e) if e else old
            v = home.get(a, model.ABSENT) if isinstance(home, dict) else model.ABSENT
            if s:
                v = v.get(s, model.ABSENT) if isinstance(v, dict) else model.ABSENT
            if v is model.ABSENT:
                continue
            place = out.setdefault(e, {}) if e else out
            if s:
                place = place.setdefault(a, {})
            place[s or a] = copy.deepcopy(v)
        return out

    def read_only(self, res, kind, old, new):
        """A client's PUT or PATCH never changes what only the server may set."""
        for e, a, s in model.read_only_paths(res):
            if a in ("meta", "schemas"):
                continue

            def at(d):
                home = d.get(e) if e else d
                v = home.get(a, model.ABSENT) if isinstance(home, dict) else model.ABSENT
                if s and v is not model.ABSENT:
                    v = v.get(s, model.ABSENT) if isinstance(v, dict) else model.ABSENT
                return v
            was, now = at(old), at(new)
            if was is model.ABSENT and now is model.ABSENT:
                continue
            if now is model.ABSENT and s:
                home = new.get(e) if e else new
                if kind == "patch" or not isinstance(home, dict) or home.get(a, 0) is None:
                    continue                    # its parent was removed, which is allowed
            if (was is model.ABSENT) != (now is model.ABSENT) or not same(was, now):
                raise Broken("read-only", "%s changed %s of a %s" % (
                    kind.upper(), ".".join(x for x in (a, s) if x), res.key),
                    got=show(None if now is model.ABSENT else now),
                    want=show(None if was is model.ABSENT else was))

    # ---------------------------------------------------------------- answers
    def respond(self, w, m, d, res, kind, rid, wanted, checker):
        v = w.v[res.key, kind]
        status = {"post": 201, "delete": 204}.get(kind, 200)
        headers = {}
        if kind == "delete":
            body = None
        else:
            body = project(res, self.store[res.key][rid], wanted)
            if kind == "post" or m.get("loc"):
                headers["Location"] = gen.location(res, rid)
                if wanted and not isinstance(body.get("meta"), dict):
                    headers = {} if kind != "post" else headers
                elif wanted and "location" not in body["meta"]:
                    headers = {} if kind != "post" else headers
            if kind == "post" and wanted and (not isinstance(body.get("meta"), dict)
                                              or "location" not in body["meta"]):
                d = dict(d, app=None)           # a POST answer needs meta.location: not judged
                self.count("POST answers without meta.location")
                return
            if kind == "patch" and m.get("quiet") and not wanted:
                status, body = 204, None
        sites = None
        if (d.get("app") or {}).get("kind") == "spots":
            if body is not None and not wanted and model.judge(
                    model.dump_object, res, kind, body, status, headers, wanted)[0] == "ok":
                got = spots.damage(d["app"]["seed"], res, body, "dump")
                if got and not any(p[0] == "meta" for p, _ in got[1]):
                    body, sites = got[0], [(spots.flat(("body",), p), c) for p, c in got[1]]
                    self.count("fault application: spots")
        elif d.get("app"):
            body, status, headers = faults.answer(d["app"], res, kind, body, status, headers, wanted)
            self.count("fault application: " + d["app"]["kind"])
        if kind == "delete":
            out, issues = self.call("DELETE response", v.dump_response, status_code=status,
                                    headers=headers)
            j = ("ok", None) if status == 204 else ("no", "status")
        else:
            sent = copy.deepcopy(body)
            kw = {"presence_checker": checker} if checker else {}
            out, issues = self.call(m["m"] + " response", v.dump_response, status_code=status,
                                    body=sent, headers=headers, **kw)
            j = model.judge(model.dump_object, res, kind, body, status, headers, wanted)
        self.answer(m, j, out, issues, body)
        self.named(m, sites, issues, "response")
        if j[0] == "ok" and not d.get("app") and kind != "delete" and body is not None:
            want = model.dump_object(res, kind, project(res, self.ref[res.key][rid], wanted),
                                     status, headers, wanted)
            if not same(plain(out.body), want):
                raise Broken("content", "the client reads other content than was last written",
                             got=show(plain(out.body)), want=show(want))
            self.count("faithful answers")
        self.inbox.append([m["m"], status])

    def answer(self, m, j, out, issues, body, what=None):
        what = what or m["m"]
        accepted = not issues.has_issues()
        self.count("answers judged " + j[0])
        if not accepted and out.body is not None:
            raise Broken("half-delivered", what + ": content handed over although it was refused",
                         got=show(plain(out.body)), want=issues_of(issues))
        if j[0] == "ok" and not accepted:
            raise Broken("withheld", what + ": a correct answer is withheld",
                         got=issues_of(issues), want="delivered", op=show(body))
        if j[0] == "no" and accepted:
            raise Broken("leaked", what + ": an answer that must be withheld is delivered",
                         got=show(plain(out.body)), want="withheld: " + str(j[1]), op=show(body),
                         cat=j[2])
        if accepted and j[0] == "ok" and not same(plain(out.body), j[1]):
            raise Broken("altered", what + ": the answer is altered on its way out",
                         got=show(plain(out.body)), want=show(j[1]), op=show(body))
        return accepted

    def refuse(self, w, m, d):
        self.count("requests refused")
        self.fail(w, 400, "invalid", m, d)

    def fail(self, w, status, detail, m, d):
        """The application answers with an error."""
        body = {"schemas": [S.MSG + "Error"], "status": str(status), "detail": detail}
        if d.get("app"):
            body, status, _ = faults.answer(d["app"], None, "error", body, status, {}, None)
            self.count("fault application: " + d["app"]["kind"])
        out, issues = self.call("error response", w.v["*", "error"].dump_response,
                                status_code=status, body=copy.deepcopy(body))
        self.answer(m, model.judge(model.dump_error, body, status), out, issues, body, "error")

    # ---------------------------------------------------------------- lists
    def on_list(self, m, d, node):
        w = self.nodes[node]
        key = {"LIST": (m.get("res"), "list"), "ROOT": ("*", "root"), "SEARCH": ("*", "search")}[m["m"]]
        ress = [S.RESOURCES[m["res"]]] if m["m"] == "LIST" else list(S.RESOURCES.values())
        v = w.v[key]
        q = decode(m["query"])
        if m["m"] == "SEARCH":
            body = q
            if isinstance(q, dict):
                body = dict(q)
                body.setdefault("schemas", [S.MSG + "SearchRequest"])
            req, issues = self.call("search request", v.parse_request, body=body)
            got = req.body
        else:
            req, issues = self.call("list request", v.parse_request, query_string=q)
            got = req.query_string
        accepted = not issues.has_issues()
        clean = "query" not in d
        if clean and m.get("ok", True) and not accepted:
            raise Broken("refused", "a conforming query is refused", got=issues_of(issues), op=show(q))
        if clean and m.get("ok") is False and accepted:
            raise Broken("accepted", "a query that does not conform is accepted", op=show(q))
        if not accepted:
            if m["m"] == "SEARCH" and got is not None:
                raise Broken("half-accepted", "search content handed over with issues",
                             got=show(plain(got)), op=show(q))
            self.refuse(w, m, d)
            return
        if not clean:
            return                                # the model cannot read a changed query
        flt, srt, chk = self.taken(m, got)
        self.select(w, m, d, ress, v, flt, srt, chk)

    def taken(self, m, got):
        """What the application gets from a query must be what the client asked for."""
        q = m["query"]

        def g(k):
            try:
                x = got[k] if not isinstance(got, dict) else got.get(k)
            except Exception:
                return None
            return x if x else None
        flt, srt, chk = g("filter"), g("sorter"), g("presence_checker")
        if ("filter" in q) != (flt is not None):
            raise Broken("selection", "the filter does not reach the application", op=show(q))
        if flt is not None:
            have = condition(flt.to_dict())
            want = normal(m["cond"])
            if json.dumps(have) != json.dumps(want):
                raise Broken("selection", "the filter is read differently", got=have, want=want,
                             op=q["filter"])
        if ("sortBy" in q) != (srt is not None):
            raise Broken("selection", "the sort order does not reach the application", op=show(q))
        if srt is not None:
            rep = srt.attr_rep
            name = (rep.schema + ":" if rep.schema else "") + rep.attr + (
                "." + rep.sub_attr if rep.sub_attr else "")
            if name.lower() != q["sortBy"].lower() or srt.asc != (
                    str(q.get("sortOrder", "ascending")).lower() == "ascending"):
                raise Broken("selection", "the sort order is read differently",
                             got=[name, srt.asc], op=show(q))
        want = "attributes" in q or "excludeAttributes" in q
        if want != (chk is not None):
            raise Broken("selection", "the attribute selection does not reach the application", op=show(q))
        if chk is not None and chk.include != ("attributes" in q):
            raise Broken("selection", "the attribute selection is turned around", op=show(q))
        for k in ("count", "startIndex"):
            x = got.get(k) if isinstance(got, dict) else plain(got[k])
            x = None if x == "<Missing>" else x
            if k in q and (x is None or int(q[k]) != x or not isinstance(x, int)) or (
                    k not in q and x is not None):
                raise Broken("selection", k + " is read differently", got=show(x), op=show(q))
        return flt, srt, chk

    def select(self, w, m, d, ress, v, flt, srt, chk):
        from src.data.container import SCIMDataContainer
        q = m["query"]
        hits = []
        for res in ress:
            for rid in sorted(self.store[res.key]):
                j = model.judge(model.resource, res, self.store[res.key][rid], "dump")
                if j[0] != "ok":
                    self.count("lists over content the model does not read")
                    return
                x = j[1]
                if flt is not None:
                    try:
                        r = flt(SCIMDataContainer(x), w.schemas[res.key], True)
                        real = r.status.value == "PASSED"
                    except Exception as e:  # noqa
                        if model.holds(res, m["cond"], x, True) is None:
                            self.count("undecided matches that raise")
                            return
                        raise Broken("match", "matching raised %s: %s" % (
                            type(e).__name__, scrub(str(e))), op=[q["filter"], show(x)])
                    want = model.holds(res, m["cond"], x, True)
                    self.count("matches judged " + {None: "undecided"}.get(want, str(want)))
                    if want is not None and want != real:
                        raise Broken("match", "the filter selects differently", got=real, want=want,
                                     op=[q["filter"], show(x)])
                    if not real:
                        continue
                hits.append((res, rid, x))
        if srt is not None and hits:
            data = [SCIMDataContainer(x) for _, _, x in hits]
            back = {id(c): h for c, h in zip(data, hits)}
            try:
                out = srt(list(data), [w.schemas[h[0].key] for h in hits] if len(ress) > 1
                          else w.schemas[ress[0].key])
                hits2 = [back[id(c)] for c in out]
            except Exception as e:  # noqa
                if model.in_order([(h[0], h[2]) for h in hits], q["sortBy"], True) is None:
                    self.count("undecided orders that raise")
                    return
                raise Broken("order", "sorting raised %s: %s" % (type(e).__name__, scrub(str(e))),
                             op=[q, show([h[2] for h in hits])])
            if sorted(h[:2][1] for h in hits2) != sorted(h[1] for h in hits):
                raise Broken("order", "sorting loses or repeats resources",
                             got=[h[1] for h in hits2], want=[h[1] for h in hits], op=show(q))
            o = model.in_order([(h[0], h[2]) for h in hits2], q["sortBy"], srt.asc)
            self.count("orders judged " + {None: "undecided"}.get(o, str(o)))
            if o is False:
                raise Broken("order", "resources come back in the wrong order",
                             got=show([h[2] for h in hits2]), op=show(q))
            hits = hits2
        total = len(hits)
        start = int(q["startIndex"]) if "startIndex" in q else 1
        count = int(q["count"]) if "count" in q else None
        start = max(1, start)
        page = hits[start - 1:] if count is None else hits[start - 1:start - 1 + max(0, count)]
        if count is None and len(page) < total:
            page, start = hits, 1
        names = q.get("attributes") or q.get("excludeAttributes")
        if isinstance(names, str):
            names = names.split(",")
        inc = "attributes" in q

        def wanted(res):
            return model.Wanted(res, names, inc)
        body = {"schemas": [S.MSG + "ListResponse"], "totalResults": total, "startIndex": start,
                "itemsPerPage": len(page),
                "Resources": [project(res, self.store[res.key][rid], wanted(res) if names else None)
                              for res, rid, _ in page]}
        status = 200
        if d.get("crash"):
            return self.crash(d.get("node", 0) % len(self.nodes))
        sites = None
        if (d.get("app") or {}).get("kind") == "spots":
            sites = self.spot_list(d["app"]["seed"], ress, body, flt, srt, names)
        elif d.get("app"):
            body, status, _ = faults.list_answer(d["app"], ress, body, status, wanted if names else None,
                                                 {"count": count, "start": start,
                                                  "sort": q.get("sortBy"), "filter": m.get("cond")})
            self.count("fault application: " + d["app"]["kind"])
        kw = {}
        if count is not None:
            kw["count"] = count
        if "startIndex" in q:
            kw["start_index"] = start
        if chk is not None:
            kw["presence_checker"] = chk
        if flt is not None:
            kw["filter_"] = flt
        if srt is not None:
            kw["sorter"] = srt
        out, issues = self.call("list response", v.dump_response, status_code=status,
                                body=copy.deepcopy(body), **kw)
        j = model.judge(model.dump_list, ress, body, status, wanted if names else None,
                        m.get("cond") if flt is not None else None,
                        (q["sortBy"], srt.asc) if srt is not None else None,
                        count, kw.get("start_index", 1))
        self.answer(m, j, out, issues, body)
        self.named(m, sites, issues, "response")
        if not d.get("app") and j[0] == "ok":
            self.count("faithful lists")
        self.inbox.append([m["m"], status, total])

    def spot_list(self, seed, ress, body, flt, srt, names):
        """Damage one resource of a correct list (in place)."""
        rs = body["Resources"]
        if not rs or flt is not None or srt is not None or names:
            return None
        i = seed % len(rs)
        res = model.type_of(ress, rs[i])
        for x in rs:
            t = model.type_of(ress, x)
            if model.judge(model.dump_resource, t, x)[0] != "ok" or model.judge(
                    model.response_presence, t, model.dump_resource(t, x), None)[0] != "ok":
                return None
        got = spots.damage(seed, res, rs[i], "dump", ("schemas",) if len(ress) > 1 else ())
        if got is None:
            return None
        if len(ress) > 1 and any(p[0] == "schemas" for p, _ in got[1]):
            return None                          # the type of the resource is then unknown
        rs[i] = got[0]
        self.count("fault application: spots")
        return [(spots.flat(("body", "Resources", i), p), c) for p, c in got[1]]

    # ---------------------------------------------------------------- discovery
    def on_docs(self, m, d, node):
        w = self.nodes[node]
        kind = m["m"]
        res = docs.TABLES[kind]
        v = w.v["*", {"SCHEMAS": "schemas", "TYPES": "restypes"}[kind]]
        q = decode(m.get("query"))
        req, issues = self.call(kind + " request", v.parse_request, query_string=q)
        self.verdict(m, ("no", "filter") if isinstance(q, dict) and "filter" in q else ("ok", None),
                     not issues.has_issues(), issues, kind)
        if issues.has_issues():
            return self.fail(w, 403, "filtering is not supported here", m, d)
        if d.get("crash"):
            return self.crash(node)
        items = docs.build(w, kind, self.clock)
        body = {"schemas": [S.MSG + "ListResponse"], "totalResults": len(items), "startIndex": 1,
                "itemsPerPage": len(items), "Resources": items}
        status = 200
        if d.get("app"):
            body, status = docs.wrong(d["app"], kind, body, status)
            self.count("fault application: " + d["app"]["kind"])
        j = model.judge(docs.dump_docs, res, body, status)
        out, issues = self.call(kind + " response", v.dump_response, status_code=status,
                                body=copy.deepcopy(body))
        accepted = self.answer(m, j, out, issues, body)
        if d.get("app") or not accepted:
            return
        have = {x["id"]: x for x in plain(out.body)["Resources"]}
        want = docs.schema_docs() if kind == "SCHEMAS" else docs.type_docs()
        self.says(kind, sorted(have), sorted(want))
        for k in want:
            a, b = docs.norm(have[k], want[k]), docs.norm(want[k], want[k])
            for x, y in zip(a.get("attributes") or [], b.get("attributes") or []):
                self.says("%s: %s" % (k, y["name"]), x, y)
            self.says(k, a, b)
        self.count("documents read", len(want))

    def says(self, what, have, want):
        if not same(have, want):
            raise Broken("document", "%s is described differently from what is enforced" % what,
                         got=show(have), want=show(want))

    def on_config(self, m, d, node):
        w = self.nodes[node]
        res = docs.SPC
        v = w.v["*", "spc"]
        req, issues = self.call("CONFIG request", v.parse_request, query_string=decode(m.get("query")))
        accepted = not issues.has_issues()
        self.verdict(m, self.names_ok(m), accepted, issues, "CONFIG")
        if not accepted:
            return self.refuse(w, m, d)
        wanted, checker = self.wish(res, m, req)
        if d.get("crash"):
            return self.crash(node)
        full = docs.build(w, "CONFIG", self.clock)
        body, status = project(res, full, wanted), 200
        if d.get("app"):
            body, status = docs.wrong(d["app"], "CONFIG", body, status)
            self.count("fault application: " + d["app"]["kind"])
        kw = {"presence_checker": checker} if checker else {}
        out, issues = self.call("CONFIG response", v.dump_response, status_code=status,
                                body=copy.deepcopy(body), **kw)
        j = model.judge(model.dump_object, res, "get", body, status, {}, wanted)
        if self.answer(m, j, out, issues, body) and not d.get("app") and not wanted:
            have = plain(out.body)
            want = dict(full, meta=dict(full["meta"], created=self.clock.isoformat()))
            self.says("the configuration", have, want)
            want = docs.configured(self.clock)
            self.says("the configuration", have, dict(want, meta=dict(want["meta"], created=self.clock.isoformat())))
            self.count("documents read")

    # ---------------------------------------------------------------- bulk
    def on_bulk(self, m, d, node):
        w = self.nodes[node]
        v = w.v["*", "bulk"]
        sites = self.spot_bulk(w, m, d)
        body = decode(m["body"])
        req, issues = self.call("bulk request", v.parse_request, body=body)
        accepted = not issues.has_issues()
        if accepted == (req.body is None):
            raise Broken("half-accepted", "bulk: content and issues do not fit", op=show(m["body"]),
                         got=show(plain(req.body)), want=issues_of(issues))
        j = model.judge(self.bulk_alone, w, decode(m["body"]))
        self.verdict(m, j, accepted, issues, "bulk")
        self.named(m, sites, issues)
        if not accepted:
            self.refuse(w, m, d)
            return
        got = req.body["Operations"]
        if j[0] == "ok":
            self.bulk_content(m, w, got, j[1])
        if d.get("crash") == "before":
            return self.crash(node)
        outs = []
        for i, o in enumerate(got):
            if j[0] != "ok":
                return
            outs.append(self.bulk_step(m, i, plain(o["method"]), plain(o["path"]), plain(o["bulkId"]),
                                       j[1][i]))
        if d.get("crash") == "after":
            return self.crash(node)
        resp = {"schemas": [S.MSG + "BulkResponse"], "Operations": outs}
        status = 200
        foe = m.get("fail_on_errors")
        sites = None
        if (d.get("app") or {}).get("kind") == "spots":
            sites = self.spot_bulk_answer(d["app"]["seed"], resp, foe)
        elif d.get("app"):
            resp, status = faults.bulk_answer(d["app"], resp, status)
            self.count("fault application: " + d["app"]["kind"])
        kw = {} if foe is None else {"fail_on_errors": foe}
        out, issues = self.call("bulk response", v.dump_response, status_code=status,
                                body=copy.deepcopy(resp), **kw)
        self.answer(m, model.judge(dump_bulk, resp, status, foe), out, issues, resp)
        self.named(m, sites, issues, "response")

    def spot_bulk(self, w, m, d):
        if "spots" not in d or model.judge(self.bulk_alone, w, decode(m["body"]))[0] != "ok":
            return None
        body = decode(m["body"])
        ops = body[spots.key_of(body, "Operations")]
        free = [i for i, o in enumerate(ops) if model.find(o, "method") in ("POST", "PUT")]
        sites = []
        for n, i in enumerate(free):
            if n and (d["spots"] >> n) & 1:
                continue
            res = next(x for x in S.RESOURCES.values() if x.plural == model.find(ops[i], "path").split("/")[1])
            k = spots.key_of(ops[i], "data")
            if model.judge(model.parse_write, res, ops[i][k], model.find(ops[i], "method"))[0] != "ok":
                continue
            got = spots.damage(d["spots"] + n, res, ops[i][k], "parse")
            if got is not None:
                ops[i][k] = got[0]
                sites += [(spots.flat(("body", "Operations", i, "data"), p), c) for p, c in got[1]]
        if not sites:
            return None
        m["body"] = body
        self.count("fault message damaged at known places")
        return sites

    def spot_bulk_answer(self, seed, resp, foe):
        if model.judge(dump_bulk, resp, 200, foe)[0] != "ok":
            return None
        sites = []
        for i, o in enumerate(resp["Operations"]):
            res = next((x for x in S.RESOURCES.values() if "/%s/" % x.plural in o["location"]), None)
            if not isinstance(o.get("response"), dict) or o["status"] >= "3" or (seed >> i) & 1:
                continue
            got = spots.damage(seed + i, res, o["response"], "dump")
            if got is not None and not any(p[0] == "meta" for p, _ in got[1]):
                o["response"] = got[0]
                sites += [(spots.flat(("body", "Operations", i, "response"), p), c) for p, c in got[1]]
        if sites:
            self.count("fault application: spots")
        return sites or None

    def bulk_alone(self, w, body):
        """[(method, res, content)]: what each operation gives when sent on its own."""
        if not isinstance(body, dict):
            raise model.No("not an object")
        model.sane({k: v for k, v in body.items() if str(k).lower() != "operations"})
        out = {}
        x = model.find(body, "schemas")
        if x is not model.ABSENT:
            out["schemas"] = model.value(S.A("schemas", "uri", "m"), x, "parse")
        model.message_schemas(out, "BulkRequest")
        x = model.find(body, "failOnErrors")
        if x is not model.ABSENT:
            model.value(S.A("failOnErrors", "integer"), x, "parse")
        ops = model.find(body, "Operations")
        if model.empty(ops) or not isinstance(ops, list):
            raise model.No("Operations")
        res_ = []
        for o in ops:
            res_.append(self.bulk_one(w, o))
        if len(ops) > S.CONFIG["bulk"].get("max_operations", len(ops)):
            raise model.No("too many operations")
        return res_

    def bulk_one(self, w, o):
        if not isinstance(o, dict):
            raise model.No("operation")
        low = [k.lower() for k in o]
        if len(set(low)) != len(low):
            raise model.Skip("ambiguous")
        meth, path, data, bid, ver = (model.find(o, k) for k in (
            "method", "path", "data", "bulkId", "version"))
        for x in (meth, path):
            if model.empty(x) or not isinstance(x, str):
                raise model.No("method or path")
        for x in (bid, ver):
            if x is not model.ABSENT and x is not None and not isinstance(x, str):
                raise model.No("bulkId or version")
        if meth not in METHODS:
            raise model.No("method")
        parts = path.split("/")
        if parts[0] != "" or len(parts) < 2 or not parts[1]:
            raise model.No("path")
        if not all(c.isalnum() for c in parts[1]):
            raise model.Skip("odd path")
        if meth == "POST":
            if len(parts) != 2:
                raise model.No("path")
            if bid is model.ABSENT or bid is None:
                raise model.No("bulkId missing")
        elif len(parts) < 3:
            raise model.No("path")
        res = next((r for r in S.RESOURCES.values() if r.plural == parts[1]), None)
        if meth == "DELETE":
            if res is None:
                raise model.Skip("DELETE of an unknown type")
            return ["DELETE", res.key, None]
        if res is None:
            raise model.No("unknown resource type")
        if meth == "GET":
            return ["GET", res.key, None]
        if data is model.ABSENT or data is None:
            raise model.No("data missing")
        v = w.v[res.key, METHODS[meth]]
        one, issues = self.call("%s alone" % meth, v.parse_request, body=copy.deepcopy(data))
        if issues.has_issues():
            raise model.No("operation refused on its own: %s" % json.dumps(issues_of(issues)))
        content = self.patch_ops(res, one.body) if meth == "PATCH" else plain(one.body)
        return [meth, res.key, content]

    def bulk_content(self, m, w, got, want):
        if len(got) != len(want):
            raise Broken("content", "bulk: operations lost or added", got=len(got), want=len(want),
                         op=show(m["body"]))
        for i, (o, x) in enumerate(zip(got, want)):
            res = S.RESOURCES[x[1]]
            data = o["data"]
            have = None
            if x[0] in ("POST", "PUT"):
                have = plain(data)
            elif x[0] == "PATCH":
                have = self.patch_ops(res, data)
            if plain(o["method"]) != x[0] or not same(have, x[2]):
                raise Broken("content", "bulk: operation %d differs from the same request on its own" % i,
                             got=[plain(o["method"]), show(have)], want=show(x), op=show(m["body"]))
            sent = model.find(decode(m["body"]), "Operations")[i]
            for k in ("path", "bulkId", "version"):
                y = model.find(sent, k)
                z = plain(o[k])
                z = None if z == "<Missing>" else z
                if z != (None if y is model.ABSENT else y):
                    raise Broken("content", "bulk: %s of operation %d changed" % (k, i), got=show(z),
                                 want=show(y), op=show(m["body"]))

    def bulk_step(self, m, i, meth, path, bid, x):
        res = S.RESOURCES[x[1]]
        out = {"method": meth}
        if isinstance(bid, str) and bid != "<Missing>":
            out["bulkId"] = bid
        if meth == "POST":
            rid = self.write(res, "post", None, (x[2], copy.deepcopy(x[2])))
        else:
            rid = self.pick(res, {"slot": sum(map(ord, path))})
            if rid is None:
                out.update(status="404", location=gen.location(res, "gone"), response={
                    "schemas": [S.MSG + "Error"], "status": "404", "detail": "no such resource"})
                return out
            if meth in ("PUT", "PATCH"):
                self.write(res, meth.lower(), rid, (x[2], copy.deepcopy(x[2])))
            elif meth == "DELETE":
                del self.store[res.key][rid], self.ref[res.key][rid]
        out["location"] = gen.location(res, rid)
        out["status"] = {"POST": "201", "DELETE": "204"}.get(meth, "200")
        if meth != "DELETE":
            body = project(res, self.store[res.key][rid], None)
            if m.get("full", True):
                out["response"] = body
            out["version"] = body["meta"]["version"]
        return out


# -------------------------------------------------------------------- helpers of the application
def project(res, state, wanted):
    """The resource as the application shows it: never-returned attributes dropped, the client's
    selection respected."""
    out = {}
    for a in res.all():
        home = state.get(a.ext) if a.ext else state
        if not isinstance(home, dict) or a.name not in home:
            continue
        v = shown(a, copy.deepcopy(home[a.name]), wanted)
        if v is model.ABSENT:
            continue
        (out.setdefault(a.ext, {}) if a.ext else out)[a.name] = v
    if "schemas" in out and res.ext:
        out["schemas"] = [x for x in out["schemas"] if x.lower() != res.ext.lower() or res.ext in out]
    return out


def shown(a, v, wanted):
    key = (a.ext, a.name, None)
    if a.returned == "never":
        return model.ABSENT
    for i in (v if isinstance(v, list) else [v]):
        for s in a.subs:
            if s.returned == "never" and isinstance(i, dict):
                i.pop(s.name, None)
    if a.returned == "always":
        return v
    if a.returned == "request" and not (wanted and wanted.include and wanted.covers(*key)):
        return model.ABSENT
    if not wanted:
        return v
    if wanted.include:
        if not wanted.covers(*key):
            return model.ABSENT
        if key in wanted.tops or not a.subs:
            return v
        keep = [s.name for s in a.subs if wanted.covers(a.ext, a.name, s.name)
                and s.returned != "never"]
    else:
        if wanted.listed(key):
            return model.ABSENT
        if not a.subs:
            return v
        keep = [s.name for s in a.subs if not wanted.listed((a.ext, a.name, s.name))]
    if isinstance(v, list):
        return [{k: i[k] for k in i if k in keep} for i in v]
    if isinstance(v, dict):
        v = {k: v[k] for k in v if k in keep}
        return v or model.ABSENT
    return v


def merge(old, new):
    out = copy.deepcopy(old)
    for k, v in new.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def apply_patch(res, state, o):
    kind, target, cond, v = o
    if target is None:
        for a in res.all():
            home = v.get(a.ext) if a.ext else v
            if isinstance(home, dict) and a.name in home:
                put_attr(state, a, kind, home[a.name])
        return
    ext, attr, sub = target
    a = next((y for y in res.all() if (y.ext, y.name) == (ext, attr)), None)
    if a is None:
        return
    home = state.get(ext) if ext else state
    if kind == "remove" and not (isinstance(home, dict) and attr in home):
        return
    if not sub and cond is None:
        if kind == "remove":
            del home[attr]
            if ext and not home:
                state.pop(ext)
            return
        put_attr(state, a, kind, v)
        return
    if ext and not isinstance(home, dict):
        home = state[ext] = {}
    cur = home.get(attr)
    if not a.mv:
        if not isinstance(cur, dict):
            cur = home[attr] = {}
        if kind == "remove":
            cur.pop(sub, None)
        else:
            cur[sub] = copy.deepcopy(v)
        return
    items = cur if isinstance(cur, list) else []
    hit = [cond is None or model._inner(a, cond, i, True) is True for i in items]
    if sub:
        for i, h in zip(items, hit):
            if h:
                if kind == "remove":
                    i.pop(sub, None)
                else:
                    i[sub] = copy.deepcopy(v)
        if sub == "primary" and v is True:
            seen = False
            for i in items:
                if i.get("primary") is True:
                    if seen:
                        i["primary"] = False
                    seen = True
        return
    rest = [i for i, h in zip(items, hit) if not h]
    if kind == "replace" and v:
        rest = one_primary(rest + copy.deepcopy(v))
    if items:
        home[attr] = rest


def one_primary(items):
    seen = False
    for i in reversed(items):
        if isinstance(i, dict) and i.get("primary") is True:
            if seen:
                i["primary"] = False
            seen = True
    return items


def put_attr(state, a, kind, v):
    home = state.setdefault(a.ext, {}) if a.ext else state
    if not isinstance(home, dict):
        home = state[a.ext] = {}
    v = copy.deepcopy(v)
    cur = home.get(a.name)
    if a.mv and kind == "add" and isinstance(cur, list) and isinstance(v, list):
        home[a.name] = one_primary(cur + v) if a.type == "complex" else cur + v
    elif a.type == "complex" and not a.mv and isinstance(cur, dict) and isinstance(v, dict):
        home[a.name] = dict(cur, **v)
    else:
        home[a.name] = v


# -------------------------------------------------------------------- conditions
def condition(d):
    """The code's own description of a parsed filter, as a condition of the model."""
    op = d["op"]
    if op in ("and", "or"):
        return [op, [condition(x) for x in d["sub_ops"]]]
    if op == "not":
        return ["not", condition(d["sub_op"])]
    if op == "complex":
        return ["in", low(d["attr_rep"]), condition(d["sub_op"])]
    if op == "pr":
        return ["pr", low(d["attr_rep"])]
    return ["cmp", op, low(d["attr_rep"]), number(d["value"])]


def number(v):
    return int(v) if isinstance(v, float) and v.is_integer() else v


def low(name):
    return name.lower()


def normal(c):
    """Condition tree of the generator in the shape the code describes it."""
    if c[0] in ("and", "or"):
        out = []
        for x in c[1]:
            out.append(normal(x))
        return [c[0], out]
    if c[0] == "not":
        return ["not", normal(c[1])]
    if c[0] == "in":
        return ["in", low(c[1]), normal(c[2])]
    name = c[1] if c[0] == "pr" else c[2]
    head, dot, sub = name.rpartition(":")[2].partition(".")
    if dot:
        top = name[:-(len(sub) + 1)]
        inner = ["pr", low(sub)] if c[0] == "pr" else ["cmp", c[1], low(sub), number(c[3])]
        return ["in", low(top), inner]
    return ["pr", low(name)] if c[0] == "pr" else ["cmp", c[1], low(name), number(c[3])]


# -------------------------------------------------------------------- bulk answers
def dump_bulk(body, status, foe):
    A = S.A
    if not isinstance(body, dict):
        raise model.No("not an object")
    model.sane({k: v for k, v in body.items() if str(k).lower() != "operations"})
    out = {}
    x = model.find(body, "schemas")
    if x is not model.ABSENT:
        out["schemas"] = model.value(A("schemas", "uri", "m"), x, "dump")
    model.message_schemas(out, "BulkResponse")
    if status != 200:
        raise model.No("status")
    ops = model.find(body, "Operations")
    if model.empty(ops) or not isinstance(ops, list):
        raise model.No("Operations")
    rows = []
    errors = 0
    for o in ops:
        if not isinstance(o, dict):
            raise model.No("operation")
        model.sane({k: v for k, v in o.items() if str(k).lower() != "response"})
        row = {}
        for n, t in (("method", "string"), ("bulkId", "string"), ("version", "string"),
                     ("location", "external"), ("status", "string")):
            x = model.find(o, n)
            if x is not model.ABSENT:
                row[n] = model.value(A(n, t), x, "dump")
        resp = model.find(o, "response")
        if resp is not model.ABSENT:
            row["response"] = resp
        if model.empty(row.get("method")) or row["method"] not in METHODS:
            raise model.No("method")
        if row["method"] == "POST" and row.get("bulkId") is None:
            raise model.No("bulkId missing")
        st = row.get("status")
        if model.empty(st):
            raise model.No("status missing")
        if not (st.isascii() and st.isdigit()):
            try:
                int(st)
            except ValueError:
                raise model.No("status")
            raise model.Skip("odd status")
        st = int(st)
        if row.get("location") is None and (row["method"] != "POST" or st < 300):
            raise model.No("location missing")
        if st >= 300 and row.get("response") is None:
            raise model.No("response missing")
        res = None
        if row.get("location"):
            res = next((r for r in S.RESOURCES.values() if "/%s/" % r.plural in row["location"]), None)
            if res is None:
                raise model.No("unknown resource type in location")
        resp = row.get("response")
        if resp is not None and not isinstance(resp, dict) and not resp:
            raise model.Skip("odd response")
        if resp is not None:
            if st >= 300:
                errors += 1
                row["response"] = model.dump_error(resp, st)
            elif row["method"] == "DELETE":
                raise model.No("content for DELETE")
            elif st == 204:
                raise model.Skip("content with 204")
            elif res is not None:
                if not resp:
                    raise model.Skip("empty response")
                row["response"] = model.dump_object(
                    res, METHODS[row["method"]], resp, st, {"Location": row["location"]}, None)
                ver = row["response"].get("meta", {}).get("version") if isinstance(
                    row["response"].get("meta"), dict) else None
                if row.get("version") and ver and row["version"] != ver:
                    raise model.No("version")
            else:
                raise model.Skip("response without location")
        rows.append(row)
    if foe is not None and errors > foe:
        raise model.No("more errors than allowed")
    out["Operations"] = rows
    return out
