"""Observable value of a result, as plain JSON-able data.  Uses public API only."""
import re
from datetime import datetime
from enum import Enum

_ADDR = re.compile(r"0x[0-9a-fA-F]+")


def scrub(text):
    return _ADDR.sub("0x", text)


def canon(v, depth=0):
    if depth > 60:
        return ["DEEP"]
    from src.attributes_presence import AttributePresenceChecker
    from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
    from src.data.operator import MatchResult
    from src.data.path import PatchPath
    from src.error import ValidationIssues
    from src.filter import Filter
    from src.request_validators import RequestData, ResponseData
    from src.sorter import Sorter

    d = depth + 1
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, Enum):
        return ["enum", v.value]
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return ["float", repr(v)]
    if isinstance(v, datetime):
        return ["dt", v.isoformat()]
    if v is Missing:
        return ["Missing"]
    if v is Invalid:
        return ["Invalid"]
    if isinstance(v, SCIMDataContainer):
        return ["C", [[k, canon(x, d)] for k, x in v.to_dict().items()]]
    if isinstance(v, dict):
        return ["D", [[canon(k, d), canon(x, d)] for k, x in v.items()]]
    if isinstance(v, list):
        return ["L", [canon(x, d) for x in v]]
    if isinstance(v, tuple):
        return ["T", [canon(x, d) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ["S", sorted((repr(canon(x, d)) for x in v))]
    if isinstance(v, ValidationIssues):
        return ["issues", canon(v.to_dict(msg=True, ctx=True), d)]
    if isinstance(v, MatchResult):
        return ["match", v.status.value]
    if isinstance(v, Filter):
        return ["filter", canon(v.to_dict(), d)]
    if isinstance(v, Sorter):
        return ["sorter", canon(v.attr_rep, d), v.asc]
    if isinstance(v, AttributePresenceChecker):
        return ["checker", canon(list(v.attr_reps), d), v.include]
    if isinstance(v, PatchPath):
        return ["path", canon(v.attr_rep, d), canon(v.complex_filter, d),
                canon(v.complex_filter_attr_rep, d)]
    if isinstance(v, AttrRep):
        return ["rep", v.schema, v.attr, v.sub_attr, bool(v.extension)]
    if isinstance(v, RequestData):
        return ["req", canon(v.headers, d), canon(v.query_string, d), canon(v.body, d)]
    if isinstance(v, ResponseData):
        return ["resp", canon(v.headers, d), canon(v.body, d)]
    return ["obj", type(v).__name__, scrub(repr(v))]


def plain(v):
    """JSON-like plain form (containers and dicts alike), for comparisons with the models."""
    from src.data.container import Invalid, Missing, SCIMDataContainer

    if isinstance(v, SCIMDataContainer):
        v = v.to_dict()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items() if x is not Missing}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is Missing:
        return "<Missing>"
    if v is Invalid:
        return "<Invalid>"
    return v
