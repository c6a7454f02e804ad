"""Execution of operation specs against the real code: one operation, one observable outcome."""
import math
from datetime import datetime

from .canon import canon, scrub


def decode(v):
    """Fresh Python objects from a JSON-able spec."""
    if isinstance(v, dict):
        if len(v) == 1:
            (k, x), = v.items()
            if k == "$dt":
                return datetime.fromisoformat(x)
            if k == "$nan":
                return math.nan
            if k == "$inf":
                return math.inf
            if k == "$c":
                from src.data.container import SCIMDataContainer
                return SCIMDataContainer(decode(x))
        return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        return [decode(x) for x in v]
    return v


class Prepared:
    """The caller's side of one call: the objects it passes in, decoded once and kept, so that the
    simulator can deliver the very same objects again and can look at them afterwards."""

    def __init__(self, o):
        self.o = o
        self.body = decode(o.get("body"))
        self.headers = decode(o.get("headers"))
        self.query = decode(o.get("query"))
        self.data = decode(o.get("data"))
        self.items = decode(o.get("items"))
        self.attrs = decode(o.get("attrs"))
        self.wrapped = None

    def wrap(self):
        """Make the containers now that the operation is given, so that they can be looked at too."""
        from src.data.container import SCIMDataContainer
        if self.o["op"] == "sort" and isinstance(self.items, list):
            self.wrapped = [SCIMDataContainer(x) for x in self.items]
        elif self.o["op"] in ("match", "presence"):
            self.wrapped = SCIMDataContainer(self.data)

    def containers(self):
        from src.data.container import SCIMDataContainer
        if self.wrapped is not None:
            return self.wrapped
        if self.o["op"] == "sort":
            return [SCIMDataContainer(x) for x in self.items]
        return SCIMDataContainer(self.data)

    def inputs(self):
        return [self.body, self.headers, self.query, self.data, self.items, self.attrs, self.wrapped]


def _filter(w, exp):
    from src.filter import Filter
    return w.shared("filter", exp, lambda: Filter.parse(exp)[0])


def _sorter(w, by, asc):
    from src.sorter import Sorter
    return w.shared("sorter", (by, asc), lambda: Sorter.parse(by, asc)[0])


def _checker(w, attrs, include):
    from src.attributes_presence import AttributePresenceChecker
    return w.shared("checker", (tuple(attrs), include),
                    lambda: AttributePresenceChecker.parse(list(attrs), include)[0])


def run(w, p):
    """Perform one operation; returns the raw result (exceptions propagate)."""
    o = p.o
    k = o["op"]
    if k == "parse":
        v = w.v[o["res"], o["kind"]]
        return v.parse_request(body=p.body, headers=p.headers, query_string=p.query)
    if k == "dump":
        v = w.v[o["res"], o["kind"]]
        kw = {"status_code": o["status"], "headers": p.headers}
        if o["kind"] != "delete":
            kw["body"] = p.body
        if o.get("checker"):
            kw["presence_checker"] = _checker(w, o["checker"]["attrs"], o["checker"]["include"])
        if o.get("filter") is not None:
            f = _filter(w, o["filter"])
            kw["filter_"] = f if f else None
        if o.get("sorter"):
            s = _sorter(w, o["sorter"]["by"], o["sorter"]["asc"])
            kw["sorter"] = s if s else None
        for n in ("count", "start_index", "fail_on_errors"):
            if o.get(n) is not None:
                kw[n] = o[n]
        return v.dump_response(**kw)
    if k == "filter":
        from src.filter import Filter
        return Filter.parse(o["exp"])
    if k == "match":
        f = _filter(w, o["exp"])
        if not f:
            return "unparsable"
        return f(p.containers(), w.schemas[o["res"]], o["strict"])
    if k == "sort":
        s = _sorter(w, o["by"], o["asc"])
        if not s:
            return "unparsable"
        return s(p.containers(), w.schemas[o["res"]])
    if k == "presence":
        c = _checker(w, p.attrs, o["include"])
        if not c:
            return "unparsable"
        return c(p.containers(), w.schemas[o["res"]].attrs, o["direction"])
    if k == "path":
        from src.data.path import PatchPath
        return PatchPath.parse(o["exp"])
    if k == "schema":
        return getattr(w.schemas[o["res"]], o["method"])(p.data)
    if k == "rep":
        from src.data.schemas import get_schema_rep
        return get_schema_rep(w.schemas[o["res"]])
    if k == "schemas_list":
        from src.data.schemas import get_schema_rep
        reps = [get_schema_rep(s) for s in w.schemas.values()]
        return w.v["*", "schemas"].dump_response(status_code=200, body={
            "schemas": ["urn:ietf:params:scim:api:messages:2.0:ListResponse"],
            "totalResults": len(reps), "Resources": reps})
    if k == "roundtrip":
        v = w.v[o["res"], "list"]
        req, issues = v.parse_request(query_string=p.query)
        q = req.query_string
        if issues.has_issues():
            return req, issues
        count = q.get("count")
        return issues, v.dump_response(
            status_code=200, body=p.body, filter_=q.get("filter") or None,
            sorter=q.get("sorter") or None, presence_checker=q.get("presence_checker") or None,
            count=count if isinstance(count, int) else None)
    raise AssertionError(k)


def outcome(w, p):
    """Canonical observable outcome of one operation run to its end."""
    try:
        res = run(w, p)
    except Exception as e:  # an exception is an outcome like any other
        return ["raised", type(e).__name__, scrub(str(e))]
    return ["ok", canon(res)]
