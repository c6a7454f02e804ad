"""The discovery documents (/Schemas, /ResourceTypes, /ServiceProviderConfig): what they must say,
written from the tables of spec.py, how an application builds them, and how it gets them wrong."""
import copy

from . import faults, model
from . import spec as S

URN = "urn:ietf:params:scim:schemas:core:2.0:"
ENUMS = {"type": ["string", "integer", "decimal", "boolean", "reference", "dateTime", "binary", "complex"],
         "mutability": ["readOnly", "readWrite", "immutable", "writeOnly"],
         "returned": ["always", "never", "default", "request"],
         "uniqueness": ["none", "server", "global"]}
COMMON = dict(S._COMMON, id=("string", "os"))

SCHEMA = S.R("Schema", "Schema", "Schemas", URN + "Schema", {
    **COMMON,
    "name": ("string", "os"), "description": ("string", "os"),
    "attributes": ("complex", "mo", {
        "name": ("string", "ros"), "type": ("string", "rosv", ENUMS["type"]),
        "subAttributes": ("any", "os"), "multiValued": ("boolean", "ros"), "description": ("string", "os"),
        "required": ("boolean", "ros"), "canonicalValues": ("any", "mos"), "caseExact": ("boolean", "os"),
        "mutability": ("string", "rosv", ENUMS["mutability"]),
        "returned": ("string", "rosv", ENUMS["returned"]),
        "uniqueness": ("string", "rosv", ENUMS["uniqueness"]), "referenceTypes": ("string", "mos"),
    }),
})

RESTYPE = S.R("ResourceType", "ResourceType", "ResourceTypes", URN + "ResourceType", {
    **COMMON,
    "name": ("string", "ros"), "description": ("string", "os"), "endpoint": ("uri", "ros"),
    "schema": ("string", "ros"),
    "schemaExtensions": ("complex", "m", {"schema": ("string", "ros"), "required": ("boolean", "ros")}),
})

_ON = {"supported": ("boolean", "ro")}
SPC = S.R("ServiceProviderConfig", "ServiceProviderConfig", "ServiceProviderConfigs",
          URN + "ServiceProviderConfig", {
              **dict(S._COMMON, id=("string", "oaxs")),
              "documentationUri": ("external", "o"),
              "patch": ("complex", "ro", _ON),
              "bulk": ("complex", "ro", {**_ON, "maxOperations": ("integer", "ro"), "maxPayloadSize": ("integer", "ro")}),
              "filter": ("complex", "ro", {**_ON, "maxResults": ("integer", "ro")}),
              "changePassword": ("complex", "ro", _ON), "sort": ("complex", "ro", _ON), "etag": ("complex", "ro", _ON),
              "authenticationSchemes": ("complex", "mro", {
                  "type": ("string", "ro", ["oauth", "oauth2", "oauthbearertoken", "httpbasic", "httpdigest"]),
                  "name": ("string", "ro"), "description": ("string", "ro"),
                  "specUri": ("external", "o"), "documentationUri": ("external", "o"),
              }),
          })
TABLES = {"SCHEMAS": SCHEMA, "TYPES": RESTYPE, "CONFIG": SPC}

SERVER_UNIQUE = {("User", "userName"), ("*", "id")}
NAMES = {"uri": "reference", "external": "reference", "scimref": "reference"}


# ------------------------------------------------------------------ what the documents must say
def attr_doc(res, a, top=True, ours=True):
    out = {"name": a.name, "type": NAMES.get(a.type, a.type), "multiValued": a.mv, "required": a.required,
           "mutability": a.mutability, "returned": a.returned,
           "uniqueness": "server" if top and {(res.key, a.name), ("*", a.name)} & SERVER_UNIQUE else "none"}
    if a.type == "string":
        out["caseExact"] = a.case_exact
    if a.canonical:
        out["canonicalValues"] = list(a.canonical)
    if a.type in NAMES:
        out["referenceTypes"] = {"uri": ["uri"], "external": ["external"], "scimref": ["User"]}[a.type]
    if a.type == "complex":
        out["subAttributes"] = [attr_doc(res, s, False, a.name not in S._COMMON) for s in a.subs]
    if res.key == "Device" and ours and (not top or a.name not in S._COMMON):
        out["description"] = about(a)
    return out


def about(a):
    return "about " + a.name


def schema_docs():
    out = {}
    for res in S.RESOURCES.values():
        out[res.core] = {"id": res.core, "schemas": [SCHEMA.core], "name": res.name,
                         "attributes": [attr_doc(res, a) for a in res.attrs]}
        if res.ext:
            out[res.ext] = {"id": res.ext, "schemas": [SCHEMA.core],
                            "attributes": [attr_doc(res, a) for a in res.ext_attrs]}
    return out


def type_docs():
    return {res.name: {"schemas": [RESTYPE.core], "id": res.name, "name": res.name, "endpoint": "/" + res.plural,
                      "schema": res.core,
                      "schemaExtensions": [{"schema": res.ext, "required": False}] if res.ext else []}
            for res in S.RESOURCES.values()}


def norm(doc, want):
    """The parts of a delivered document that matter, in one order."""
    out = {k: doc.get(k) for k in want if k != "attributes"}
    if "attributes" in want:
        out["attributes"] = norm_attrs(doc.get("attributes") or [])
    return out


def norm_attrs(items):
    rows = []
    for a in items:
        a = dict(a)
        if not str(a.get("description", "")).startswith("about "):
            a.pop("description", None)
        if "canonicalValues" in a:
            a["canonicalValues"] = sorted(str(x) if a.get("caseExact") else str(x).lower() for x in a["canonicalValues"])
        if "subAttributes" in a:
            a["subAttributes"] = norm_attrs(a["subAttributes"] or [])
        rows.append(a)
    return sorted(rows, key=lambda a: str(a.get("name")))


# ------------------------------------------------------------------ the application
def build(w, kind, clock):
    """Documents as an application makes them from its long-lived objects."""
    from src.data.schemas import get_schema_rep
    if kind == "SCHEMAS":
        docs = [get_schema_rep(s) for s in w.schemas.values()]
        own = {x.schema: x for x in w.extensions}
        for s in w.schemas.values():
            for urn in s.schema_extensions:
                doc = own[urn].to_dict() if urn in own else {
                    "id": urn, "attributes": [a.to_dict() for a in s.attrs.top_level if a.rep.schema == urn]}
                docs.append(dict(doc, schemas=[SCHEMA.core], meta={"resourceType": "Schema"}))
        for d in docs:
            d["meta"]["location"] = "https://example.com/v2/Schemas/" + d["id"]
        return docs
    if kind == "TYPES":
        return [{"schemas": [RESTYPE.core], "id": s.name, "name": s.name, "description": s.description,
                 "endpoint": "/" + s.plural_name, "schema": s.schema,
                 "schemaExtensions": [{"schema": x, "required": False} for x in s.schema_extensions],
                 "meta": {"resourceType": "ResourceType", "created": clock,
                          "location": "https://example.com/v2/ResourceTypes/" + s.name}}
                for s in w.schemas.values()]
    c = w.config
    return {"schemas": [SPC.core], "documentationUri": c.documentation_uri,
            "patch": {"supported": c.patch.supported},
            "bulk": {"supported": c.bulk.supported, "maxOperations": c.bulk.max_operations or 0,
                     "maxPayloadSize": c.bulk.max_payload_size or 0},
            "filter": {"supported": c.filter.supported, "maxResults": c.filter.max_results or 0},
            "changePassword": {"supported": c.change_password.supported},
            "sort": {"supported": c.sort.supported}, "etag": {"supported": c.etag.supported},
            "authenticationSchemes": [
                {"type": x.type, "name": x.name, "description": x.description, "specUri": x.spec_uri,
                 "documentationUri": x.documentation_uri} for x in c.authentication_schemes],
            "meta": {"resourceType": "ServiceProviderConfig", "created": clock,
                     "location": "https://example.com/v2/ServiceProviderConfig"}}


def configured(clock):
    """The same from the options the deployment was started with."""
    c = S.CONFIG
    one = lambda k: {"supported": c[k]["supported"]}  # noqa
    return {"schemas": [SPC.core], "documentationUri": c["documentation_uri"], "patch": one("patch"),
            "bulk": dict(one("bulk"), maxOperations=c["bulk"].get("max_operations") or 0,
                         maxPayloadSize=c["bulk"].get("max_payload_size") or 0),
            "filter": dict(one("filter_"), maxResults=c["filter_"].get("max_results") or 0),
            "changePassword": one("change_password"), "sort": one("sort"), "etag": one("etag"),
            "authenticationSchemes": [
                {"type": x["type"], "name": x["name"], "description": x["description"], "specUri": x["spec_uri"],
                 "documentationUri": x["documentation_uri"]} for x in c["authentication_schemes"]],
            "meta": {"resourceType": "ServiceProviderConfig", "created": clock,
                     "location": "https://example.com/v2/ServiceProviderConfig"}}


# ------------------------------------------------------------------ judging an answer
def dump_docs(res, body, status):
    for x in (body.get("Resources") if isinstance(body, dict) and isinstance(body.get("Resources"), list) else []):
        if isinstance(x, dict) and "bulkId" in str(model.find(x, "id")):
            raise model.Skip("odd id")
    out = model.dump_list([res], body, status, None, None, None, None, 1)
    if res is SCHEMA:
        for d in out.get("Resources") or []:
            if d.get("attributes"):
                d["attributes"] = described(d["attributes"])
    return out


def described(items):
    a = SCHEMA.get("attributes")
    out = []
    for x in items:
        x = dict(x)
        t = x.get("type")
        if not isinstance(t, str) or t not in ENUMS["type"]:
            raise model.Skip("type missing or in other letter case")
        if x.get("subAttributes", model.ABSENT) not in (model.ABSENT, None):
            if t != "complex":
                x.pop("subAttributes")
            else:
                model.sane(x["subAttributes"])
                sub = model.value(a, x["subAttributes"], "dump")
                for y in sub:
                    if any(model.empty(y.get(s.name, model.ABSENT)) for s in a.subs if s.required):
                        raise model.Skip("sub-attribute described in part")
                x["subAttributes"] = described(sub)
        if t == "string":
            if x.get("caseExact") is None:
                raise model.No("caseExact missing")
        else:
            x.pop("caseExact", None)
        out.append(x)
    return out


# ------------------------------------------------------------------ mistakes of the application
KINDS = ["d-enum", "d-enum", "d-case", "d-case", "d-drop", "d-drop", "d-null", "d-type", "d-more", "d-subs", "garble",
         "total", "fewer", "more", "per-page", "start", "no-page-info", "list-schemas", "status", "item-junk",
         "resources-junk", "drop-required", "schemas", "resource-type"]


def wrong(spec, kind, body, status):
    """(body, status) with one mistake."""
    r = faults._rng(spec)
    k = spec["kind"]
    res = TABLES[kind]
    body = copy.deepcopy(body)
    if k == "garble":
        return faults.gen_damage(r, body), status
    if kind == "CONFIG":
        if k == "status":
            return body, r.choice([201, 204, 404, 500, 0])
        if k in ("schemas", "resource-type"):
            return faults.damage_resource(r, k, res, body, None), status
        spot(r, k, res, body)
        return body, status
    if not k.startswith("d-") and k not in ("drop-required", "schemas", "resource-type"):
        b, s, _ = faults.list_answer(spec, [res], body, status, None, {"count": None, "start": 1})
        return b, s
    doc = r.choice(body["Resources"])
    if k.startswith("d-"):
        spot(r, k, res, doc)
    else:
        faults.damage_resource(r, k, res, doc, None)
    return body, status


def spot(r, k, res, doc):
    """One mistake somewhere in a document, at any depth."""
    places = [(doc, res.attrs)]
    for a in res.attrs:
        v = doc.get(a.name)
        if a.subs:
            for x in (v if isinstance(v, list) else [v] if isinstance(v, dict) else []):
                places.append((x, a.subs))
                for y in x.get("subAttributes") or []:
                    places.append((y, a.subs))
    d, rows = r.choice(places if r.random() < 0.9 else places[:1])
    rows = [a for a in rows if a.name in d]
    if not rows:
        return
    if k == "d-enum":
        hit = [a for a in rows if a.enforced] or rows
        a = r.choice(hit)
        d[a.name] = r.choice([x for v in ENUMS.values() for x in v] + ["", "readonly", "Always", "STRING", "none "])
    elif k == "d-case" and "caseExact" in d:
        if r.random() < 0.6:
            d.pop("caseExact")
        else:
            d["caseExact"] = r.choice([None, "true", 1, True, False])
    elif k in ("d-drop", "d-case"):
        d.pop(r.choice(rows).name)
    elif k == "d-null":
        d[r.choice(rows).name] = r.choice([None, None, "", []])
    elif k == "d-type":
        a = r.choice(rows)
        d[a.name] = r.choice(faults.WRONG.get(a.type) or [5])
    elif k == "d-subs":
        d["subAttributes"] = r.choice([None, [], {}, "x", [1], [{}], [{"name": "x"}], [[]]])
    else:
        d[r.choice(["unknown", "descriptions", "$x", "enabled"])] = r.choice([1, "x", None, {"a": 1}])
