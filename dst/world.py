"""The simulated deployment: one process' worth of long-lived pyscim objects.

Real code: everything under /repo/src.  Harness code: the user-supplied parsers/dumpers ("hooks")
of the Device resource type, which a deployment would write itself; they are the seam at which the
simulator yields to other threads and raises application faults.
"""
import copy
import datetime as _dt
import importlib
import os
import random
import sys

REPO = os.environ.get("PYSCIM_REPO", "/repo")

from . import spec as S  # noqa: E402

_MODULES = [
    "src.utils", "src.error", "src.data.container", "src.data.type", "src.data.attributes",
    "src.data.schemas", "src.data.operator", "src.filter", "src.data.path", "src.sorter",
    "src.attributes_presence", "src.assets.config", "src.assets.scim_error",
    "src.assets.schemas.error", "src.assets.schemas.bulk_ops", "src.assets.schemas.schema",
    "src.assets.schemas.patch_op", "src.assets.schemas.service_provider_config",
    "src.assets.schemas.search_request", "src.assets.schemas.list_response",
    "src.assets.schemas.resource_type", "src.assets.schemas.user", "src.assets.schemas.group",
    "src.request_validators",
]


def load(order_seed=None):
    """Import the code under test from the working tree, in the usual or in a permuted order."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mods = list(_MODULES)
    if order_seed is not None:
        random.Random(order_seed).shuffle(mods)
    for m in mods:
        importlib.import_module(m)


class HookFault(Exception):
    """Raised by a user-supplied parser or dumper when the simulator says so."""


class Hooks:
    """Process-wide seam of the user-supplied processors: the simulator installs `on_call`."""

    on_call = None

    stamp = False                           # hooks leave a visible mark on what they have checked

    @classmethod
    def fire(cls, name):
        if cls.on_call is not None:
            cls.on_call(name)


def _hook(name):
    from src.data.container import Invalid
    from src.error import ValidationError, ValidationIssues

    def processor(value):
        Hooks.fire(name)
        issues = ValidationIssues()
        if isinstance(value, str) and value.startswith("REJECT"):
            issues.add(issue=ValidationError.bad_value_syntax(), proceed=False)
            return Invalid, issues
        return (stamped(value) if Hooks.stamp else value), issues

    processor.__name__ = "hook_" + name
    return processor


def stamped(value):
    if isinstance(value, str):
        return "checked " + value
    if isinstance(value, list):
        return [stamped(x) for x in value]
    if hasattr(value, "to_dict"):
        out = type(value)(value.to_dict())
        out["stamp"] = "checked"
        return out
    return value


def build_attr(row, procs=None):
    """An Attribute of the code under test from a row of the spec tables."""
    from src.data import type as t
    from src.data.attributes import (
        Attribute, AttributeIssuer, AttributeMutability, AttributeReturn, ComplexAttribute,
    )

    types = {
        "string": t.String, "integer": t.Integer, "decimal": t.Decimal, "boolean": t.Boolean,
        "dateTime": t.DateTime, "binary": t.Binary, "external": t.ExternalReference,
        "uri": t.URIReference, "scimref": t.SCIMReference,
    }
    common = dict(
        name=row.name,
        required=row.required,
        multi_valued=row.mv,
        mutability=AttributeMutability(row.mutability),
        returned=AttributeReturn(row.returned),
        issuer=AttributeIssuer.SERVER if row.server else AttributeIssuer.NOT_SPECIFIED,
        description="about " + row.name,
    )
    if row.type == "complex":
        kw = {}
        if row.name in ("interfaces", "network"):
            kw = dict(complex_parsers=[_hook(row.name + ".parse")],
                      complex_dumpers=[_hook(row.name + ".dump")])
        if procs:                           # lists that belong to the caller
            kw = dict(complex_parsers=procs[0], complex_dumpers=procs[1])
        return ComplexAttribute(sub_attributes=[build_attr(s) for s in row.subs], **common, **kw)
    kw = {}
    if row.name in ("serialNumber", "labels", "bench", "hostname"):
        kw = dict(parsers=[_hook(row.name + ".parse")], dumpers=[_hook(row.name + ".dump")])
    if row.type == "scimref":
        kw["reference_types"] = ["User"]
    return Attribute(
        type_=types[row.type], case_exact=row.case_exact,
        canonical_values=list(row.canonical) if row.canonical else None,
        validate_canonical_values=row.enforced, **common, **kw,
    )


def lab_extension():
    from src.data.schemas import SchemaExtension

    return SchemaExtension(
        schema=S.DEVICE.ext, attrs=[build_attr(a) for a in S.DEVICE.ext_attrs], name="Lab",
        description="laboratory")


def device_schema(extension=None):
    from src.data.schemas import ResourceSchema

    skip = {"schemas", "id", "externalId", "meta"}
    schema = type("Device", (ResourceSchema,), {})(
        schema=S.DEVICE.core,
        attrs=[build_attr(a) for a in S.DEVICE.attrs if a.name not in skip],
        name="Device", plural_name="Devices", description="simulated device",
    )
    schema.with_extension(extension or lab_extension())
    return schema


class World:
    """Every object a serving process creates once and shares between all its requests."""

    def __init__(self, max_operations=None, max_results=None):
        from src import request_validators as rv
        from src.assets.config import create_service_provider_config
        from src.assets.schemas import group, service_provider_config, user

        given = S.CONFIG
        if max_operations or max_results:
            given = S.config(bulk={"supported": True, "max_operations": max_operations or 8, "max_payload_size": 1048576},
                             filter_={"supported": True, "max_results": max_results or 50})
        self.config = create_service_provider_config(**copy.deepcopy(given))
        lab = lab_extension()
        self.extensions = [lab]
        self.schemas = {"User": user.User(), "Group": group.Group(), "Device": device_schema(lab)}
        self.spc_schema = service_provider_config.ServiceProviderConfig()
        self.v = {}
        every = list(self.schemas.values())
        for k, sch in self.schemas.items():
            self.v[k, "get"] = rv.ResourceObjectGET(self.config, resource_schema=sch)
            self.v[k, "put"] = rv.ResourceObjectPUT(self.config, resource_schema=sch)
            self.v[k, "post"] = rv.ResourcesPOST(self.config, resource_schema=sch)
            self.v[k, "patch"] = rv.ResourceObjectPATCH(self.config, resource_schema=sch)
            self.v[k, "delete"] = rv.ResourceObjectDELETE(self.config)
            self.v[k, "list"] = rv.ResourcesGET(self.config, resource_schema=sch)
        self.v["*", "root"] = rv.ServerRootResourceGET(self.config, resource_schemas=every)
        self.v["*", "search"] = rv.SearchRequestPOST(self.config, resource_schemas=every)
        self.v["*", "bulk"] = rv.BulkOperations(self.config, resource_schemas=every)
        self.v["*", "error"] = rv.Error()
        self.v["*", "schemas"] = rv.SchemasGET(self.config)
        self.v["*", "restypes"] = rv.ResourceTypesGET(self.config)
        self.v["*", "spc"] = rv.ResourceObjectGET(self.config, resource_schema=self.spc_schema)
        self.pool = {}
        self.made = {}
        self.keep = True

    # -- long-lived query objects, parsed once and shared by later requests and by all threads
    def shared(self, kind, key, make):
        if not self.keep:                   # a process that parses anew for every request
            return make()
        k = (kind, repr(key))
        if k not in self.pool:
            self.pool[k] = make()
            self.made[k] = make
        return self.pool[k]


def utc(s):
    return _dt.datetime.fromisoformat(s)
