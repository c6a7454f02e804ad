"""Writes known_findings.json: one entry per defect of the code under test that was repaired (or kept)."""
import json
import os

FIXED = [
    ("C05", "6170e24", "parsing a list or search request replaced entries of the caller's query string in place, so that delivering the same request twice failed"),
    ("C06", "4e5a4b1", "the live canonicalValues/referenceTypes lists of an attribute were handed out in schema descriptions and issue contexts; changing them changed later validation"),
    ("C07", "884a927", "building a ComplexAttribute appended to the caller's complex_parsers/complex_dumpers lists"),
    ("C07", "78a8f26", "an extension whose URN differs only in letter case was registered twice; a refused registration left half of itself behind"),
    ("C09", "56ab0e4", "a non-string item in 'schemas' raised instead of being reported"),
    ("C09", "96a4501", "non-ASCII binary values and infinite or NaN integers raised instead of being reported"),
    ("C09", "23515c2", "a schema extension that is not an object raised instead of being reported"),
    ("C09", "ad985a3", "malformed patch operations raised instead of being reported"),
    ("C09", "0657def", "malformed bulk requests raised instead of being reported"),
    ("C09", "7cc05d0", "malformed bulk and list responses raised instead of being reported"),
    ("C09", "1f2f141", "a patch path that is not a single value filter raised instead of being reported"),
    ("C11", "83704e5", "a patch operation 'ADD' or 'Replace' was taken for a remove"),
    ("C12", "fe53120", "excludeAttributes of a search request was taken for attributes, sortOrder was ignored"),
    ("C09", "8b71894", "a bulk response to DELETE with content, and page parameters of a wrong type, raised instead of being reported"),
    ("C14", "38fa56a", "'pr' on a multi-valued complex attribute never matched parsed data"),
    ("C12", "f0323da", "a client could not exclude a required attribute that is not always returned"),
    ("C09", "801a753", "an integer too large for a decimal attribute raised instead of being reported"),
    ("C15", "869be25", "the content of a bulk operation was dropped when its status did not fit its method"),
    ("C11", "7893364", "a patch operation without 'op' was taken for a remove"),
    ("C12", "0b94491", "an empty excludeAttributes cancelled attributes, so unrequested content went out"),
    ("C11", "b50ba3d", "a patch operation that sets a complex attribute to null raised"),
    ("C14", "f20235c", "a filter value that can not be compared with the stored one raised"),
    ("C14", "60eaa45", "zero, false and empty multi-valued attributes were misplaced when sorting, or raised"),
    ("C14", "dae4a3e", "bracketed parts of a filter were mixed up when one starts like another"),
    ("C10", "43e8212", "an empty attribute name in an object hid its other attributes"),
    ("C10", "d880a1e", "binding an attribute to a schema lost its description and the enforcement of canonical values"),
    ("C11", "d603faf", "a PATCH without path that sets a multi-valued complex attribute was refused because of a read-only sub-attribute no item contains"),
    ("C11", "c2344c5", "a PATCH with a path could set read-only sub-attributes of the items of a multi-valued attribute"),
    ("C11", "562726a", "the issue about a read-only sub-attribute had an empty location"),
    ("C11", "107792e", "a PATCH could modify a sub-attribute of a read-only complex attribute through its own path"),
    ("C14", "ada2aec", "no filter matched a multi-valued dateTime attribute"),
    ("C16", "aa5e1ec", "the documentation URI of an authentication scheme was lost: the attribute was called specUri twice"),
    ("C17", "37bc09b", "reports about missing or superfluous extension attributes lacked the extension URN"),
    ("C16", "fb305f7", "extension attributes were described as attributes of the base schema once an extension was registered"),
    ("C17", "1e7bad8", "the issue about missing caseExact had an attribute reference instead of a name in its location"),
    ("C16", "b53a59f", "schema documents with decimal attributes were withheld"),
    ("C10", "d883281", "required parts of an attribute without value (null, or a single complex attribute left out) were demanded"),
    ("C14", "07a43e2", "attribute names with '-' or '$' (members.$ref) were refused in filters, paths and selections"),
    ("C14", "e8a3d3a", "a bracketed filter on an attribute whose schema URN contains '-' was refused"),
    ("C17", "b7b95b1", "issues about items of extension attributes in PATCH operations lacked the extension URN"),
    ("C14", "b2345b3", "logical operators of filters (AND, Or, NOT) were only recognised in lower case"),
    ("C14", "8940004", "attribute names and URNs containing 'or', 'and' or 'not' next to '-', '.', ':' were split in filters"),
    ("C10", "d6f996a", "core attributes were taken for attributes of an absent extension that have the same name"),
    ("C12", "019ada2", "filters, sorters and presence checks looked for attributes of absent extensions at the top level"),
    ("C15", "f6e336f", "every bulk request raised TypeError when the configuration of bulk operations has no limit of operations"),
    ("C20", "58618c4", "merging a report with an issue that allows to proceed made can_proceed() false; merging an extracted report could raise KeyError"),
    ("C20", "eb2bb5b", "a report returned by get() shared its lists with the original, could not be added to, and was empty for locations given as lists"),
    ("C20", "ea5189c", "pop() left every second of adjacent issues of the code behind and returned issues it had not removed"),
    ("C20", "404d554", "has_issues() and can_proceed() did not work with locations given as lists"),
    ("C19", "9f22fa8", "assigning an attribute in another letter case left the old spelling and value in to_dict()"),
    ("C19", "4f129fa", "assigning to an extension stored in another letter case raised KeyError"),
    ("C19", "26f0772", "comparison ignored attributes only the other content has; a content with an extension was not equal to itself"),
    ("C19", "ac846cb", "deleting an attribute of an extension that is not complex raised TypeError"),
    ("C19", "50f7a05", "deleting a sub-attribute of items that are not complex raised TypeError"),
    ("C19", "858caa6", "assigning a list to a sub-attribute of a single complex attribute raised TypeError"),
    ("C19", "67aef09", "assigning a sub-attribute to an empty multi-valued attribute was refused; so was the repetition of a broken-off assignment"),
    ("C19", "79cb53c", "an attribute named with the schema of a present extension was assigned at the top level"),
    ("C09", "3a475b7", "an object under the schema of the resource hid all its attributes; list responses with such a resource raised AttributeError"),
    ("C09", "78e17d2", "a filter or path with a number that is infinite ('a eq 1e400') raised OverflowError"),
    ("C14", "78e17d2", "'a eq 9007199254740993' was read as 9007199254740992: integers in filters went through float"),
]
OPEN = []


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    rows = [{"property": p, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)}
            for p, c, w in FIXED] + OPEN
    with open(path, "w") as f:
        f.write('{\n "findings": [\n' + ",\n".join("  " + json.dumps(r) for r in rows) + "\n ]\n}\n")


if __name__ == "__main__":
    main()
