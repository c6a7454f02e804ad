"""Independent description of the resource types the simulated deployment serves.

The tables are written down here (not read from the code under test), so a change of the code's
own schema definitions is visible to the simulation as a change of behaviour.
A row is  name: (type, flags, sub-rows | canonical values)

flags:  m multi-valued   r required     o readOnly   w writeOnly   i immutable
        a returned=always   n returned=never   q returned=request   x caseExact   s issued by server
        v canonical values are enforced
"""

CORE_USER = "urn:ietf:params:scim:schemas:core:2.0:User"
ENT_USER = "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User"
CORE_GROUP = "urn:ietf:params:scim:schemas:core:2.0:Group"
CORE_DEVICE = "urn:sim:schemas:core:2.0:Device"
EXT_LAB = "urn:sim:schemas:extension:Lab:2.0:Device"
MSG = "urn:ietf:params:scim:api:messages:2.0:"


class A:
    __slots__ = (
        "name", "type", "mv", "required", "mutability", "returned", "case_exact",
        "server", "subs", "canonical", "enforced", "ext",
    )

    def __init__(self, name, type_, flags="", extra=None, ext=None):
        self.name, self.type, self.ext = name, type_, ext
        self.mv = "m" in flags
        self.required = "r" in flags
        self.mutability = (
            "readOnly" if "o" in flags else "writeOnly" if "w" in flags
            else "immutable" if "i" in flags else "readWrite"
        )
        self.returned = (
            "always" if "a" in flags else "never" if "n" in flags
            else "request" if "q" in flags else "default"
        )
        self.case_exact = "x" in flags
        self.server = "s" in flags
        self.enforced = "v" in flags
        self.subs, self.canonical = [], None
        if type_ == "complex":
            self.subs = [A(n, *row) for n, row in (extra or {}).items()]
        else:
            self.canonical = extra

    def sub(self, name):
        for s in self.subs:
            if s.name.lower() == name.lower():
                return s
        return None


class R:
    """One resource type."""

    def __init__(self, key, name, plural, core, rows, ext=None, ext_rows=None):
        self.key, self.name, self.plural, self.core, self.ext = key, name, plural, core, ext
        self.attrs = [A(n, *row) for n, row in rows.items()]
        self.ext_attrs = [A(n, *row, ext=ext) for n, row in (ext_rows or {}).items()]

    def all(self):
        return self.attrs + self.ext_attrs

    def get(self, name, ext=False):
        for a in (self.ext_attrs if ext else self.attrs):
            if a.name.lower() == name.lower():
                return a
        return None


_S = ("string", "")
_COMMON = {
    "schemas": ("uri", "mroa"),
    "id": ("string", "roaxs"),
    "externalId": ("string", "x"),
    "meta": ("complex", "os", {
        "resourceType": ("string", "oxs"),
        "created": ("dateTime", "os"),
        "lastModified": ("dateTime", "os"),
        "location": ("uri", "os"),
        "version": ("string", "oxs"),
    }),
}


def _vals(*canon, value="string"):
    return {
        "value": (value, ""),
        "type": ("string", "", list(canon) or None),
        "display": _S,
        "primary": ("boolean", ""),
    }


USER = R("User", "User", "Users", CORE_USER, {
    **_COMMON,
    "userName": ("string", "r"),
    "name": ("complex", "", {
        "formatted": _S, "familyName": _S, "givenName": _S, "middleName": _S,
        "honorificPrefix": _S, "honorificSuffix": _S,
    }),
    "displayName": _S, "nickName": _S,
    "profileUrl": ("external", ""),
    "title": _S, "userType": _S, "preferredLanguage": _S, "locale": _S, "timezone": _S,
    "active": ("boolean", ""),
    "password": ("string", "wn"),
    "emails": ("complex", "m", _vals("work", "home", "other")),
    "phoneNumbers": ("complex", "m", _vals("work", "home", "mobile", "fax", "pager", "other")),
    "ims": ("complex", "m", _vals()),
    "photos": ("complex", "m", _vals("photo", "thumbnail", value="external")),
    "addresses": ("complex", "m", {
        "formatted": _S, "locality": _S, "streetAddress": _S, "region": _S,
        "postalCode": _S, "country": _S, "type": ("string", "", ["work", "home", "other"]),
    }),
    "groups": ("complex", "mo", {
        "value": ("string", "o"), "$ref": ("uri", "o"), "display": ("string", "o"),
        "type": ("string", "o", ["direct", "indirect"]),
    }),
    "entitlements": ("complex", "m", _vals()),
    "roles": ("complex", "m", _vals()),
    "x509Certificates": ("complex", "m", _vals(value="binary")),
}, ENT_USER, {
    "employeeNumber": _S, "costCenter": _S, "division": _S, "department": _S, "organization": _S,
    "manager": ("complex", "", {
        "value": _S, "$ref": ("scimref", ""), "displayName": ("string", "o"),
    }),
})

GROUP = R("Group", "Group", "Groups", CORE_GROUP, {
    **_COMMON,
    "displayName": ("string", "r"),
    "members": ("complex", "m", {
        "value": ("string", "i"), "$ref": ("uri", "i"), "display": ("string", "i"),
    }),
})

DEVICE = R("Device", "Device", "Devices", CORE_DEVICE, {
    **_COMMON,
    "serialNumber": ("string", "rx"),
    "assetTag": ("string", "i"),
    "ports": ("integer", ""),
    "weight": ("decimal", ""),
    "enabled": ("boolean", ""),
    "purchased": ("dateTime", ""),
    "firmware": ("binary", ""),
    "manualUrl": ("external", ""),
    "owner": ("scimref", ""),
    "labels": ("string", "m"),
    "codes": ("integer", "m"),
    "levels": ("decimal", "m"),
    "seen": ("dateTime", "m"),
    "flags": ("boolean", "m"),
    "blobs": ("binary", "m"),
    "links": ("external", "m"),
    "grade": ("string", "xv", ["A", "b", "Cc"]),
    "modes": ("string", "mv", ["On", "OFF", "auto"]),
    "tier": ("integer", "v", [1, 2, 7]),
    "pin": ("complex", "wn", {"value": _S, "hint": _S}),
    "secretKey": ("string", "wn"),
    "diag": ("string", "q"),
    "inventoryId": ("string", "os"),
    "network": ("complex", "", {
        "hostname": _S, "mac": ("string", "x"), "mtu": ("integer", ""),
        "observedAt": ("dateTime", "os"), "psk": ("string", "wn"),
    }),
    "interfaces": ("complex", "m", {
        "value": _S, "type": ("string", "v", ["eth", "wifi", "bt"]),
        "speed": ("integer", "r"), "primary": ("boolean", ""), "driver": ("string", "o"),
        "key": ("string", "wn"),
    }),
    "displayName": ("string", "x"),
    "health": ("complex", "o", {"state": _S, "score": ("integer", "")}),
    "faults": ("complex", "mo", {"value": _S, "level": ("integer", "")}),
}, EXT_LAB, {
    "bench": _S, "rack": ("integer", ""), "calibratedOn": ("dateTime", ""),
    "contact": ("complex", "", {"value": _S, "site": ("string", "o")}),
    "tags": ("string", "m"),
    "sensors": ("complex", "m", {
        "value": ("decimal", ""), "type": ("string", "", ["heat", "noise"]), "primary": ("boolean", ""),
        "sealed": ("string", "wn"),
    }),
    "token": ("string", "wn"),
    "network": _S, "grade": ("complex", "", {"value": _S, "mac": ("integer", "")}),
})

RESOURCES = {"User": USER, "Group": GROUP, "Device": DEVICE}


def config(**k):
    """Options of the deployment, as given to create_service_provider_config."""
    return dict({
        "patch": {"supported": True}, "bulk": {"supported": True, "max_operations": 8, "max_payload_size": 1048576},
        "filter_": {"supported": True, "max_results": 50}, "change_password": {"supported": True},
        "sort": {"supported": True}, "etag": {"supported": True}, "documentation_uri": "https://example.com/doc",
        "authentication_schemes": [scheme("oauthbearertoken"), scheme("httpbasic")]}, **k)


def scheme(t, n=""):
    return {"type": t, "name": "scheme " + t + n, "description": "how to " + t + n,
            "spec_uri": "https://example.com/spec/" + t, "documentation_uri": "https://example.com/doc/" + t + n}


CONFIG = config()
