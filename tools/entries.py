SIM = ("deterministic simulation: seeded baton scheduler over real threads, fault injection, "
       "differential oracle (the same operation alone in a pristine process)")
TRUST = ("Exploration: seeded random search, not exhaustive. Trusts CPython's sys.monitoring events, "
         "fork, and that an operation alone in a pristine process shows what the code means by it. ")
SURFACE = ("request parsing and response dumping of every endpoint (resource GET/PUT/PATCH/DELETE, "
           "POST, list, server root, search, bulk, errors, schemas, resource types), schema "
           "parse/dump, filter parsing and matching, sorting, attribute-presence checks and patch paths")
ALL = ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py",
       "src/data/container.py", "src/filter.py", "src/sorter.py", "src/attributes_presence.py",
       "src/data/path.py", "src/data/operator.py", "src/error.py"]

prop("C01", "Concurrent operations on shared objects do not affect each other",
     "When several threads use one deployment's validators, schemas, filters, sorters and presence "
     "checkers at the same time, every operation (" + SURFACE + ") returns exactly the data and issues, "
     "or raises exactly the error, that it does when it runs alone. This holds wherever a thread is "
     "preempted and also when an application-supplied parser or dumper calls back into the library.",
     ["schedules", "inputs"],
     "for every set of operations and every interleaving of their steps, including re-entry from hooks",
     "every test runs one operation on one thread; no test preempts an operation or shares a parsed "
     "filter, sorter or checker between two",
     ALL, [("operations keep their working state in locals and fresh objects", "src/request_validators.py: parse_request/dump_response of every class"),
           ("issue collectors are created per call", "src/error.py: ValidationIssues"),
           ("filters and operators are immutable after parsing", "src/filter.py, src/data/operator.py")],
     state=[("module-level attributes and schemas", "shared by every schema instance", "src/data/schemas.py, src/assets/schemas/*"),
            ("validator instances", "shared by all requests", "src/request_validators.py")],
     observe=["return values and exceptions of the public calls"],
     technique=SIM,
     note=TRUST + "Preemption at line boundaries of /repo/src (bytecode boundaries in a share of runs); "
     "2-4 threads per run.")

prop("C02", "The outcome of an operation does not depend on what was processed before",
     "Within one process, every operation (" + SURFACE + ") returns the same data and issues, or raises "
     "the same error, no matter which and how many operations were performed before it, which other "
     "schemas, extensions or validators were created in the meantime, how much time passed, and whether "
     "the filter, sorter or checker it uses is new or long-lived. Results already handed out never change later.",
     ["histories", "inputs"],
     "for every operation and every preceding history of operations, constructions, restarts and clock moves in the process",
     "tests run single calls on fresh objects; they never compare an operation after a long or related history "
     "with the same operation in a new process",
     ALL + ["src/assets/schemas"],
     [("no state survives a call", "src/request_validators.py, src/filter.py, src/sorter.py"),
      ("schemas bind copies of attributes", "src/data/schemas.py: BaseSchema.__init__, ResourceSchema.with_extension")],
     state=[("module-level attributes shared by schemas", "must not be written after import", "src/data/schemas.py: schemas, id_, external_id, meta")],
     observe=["return values and exceptions of the public calls, also re-read at the end of the run"],
     technique=SIM,
     note=TRUST + "Histories up to 1500 operations.")

prop("C03", "An operation that is aborted leaves no trace in later or parallel ones",
     "When an operation is cut short at any point (memory or stack exhaustion, cancellation, a deadline, an "
     "exception in an application-supplied parser or dumper), every other operation, whether in flight on "
     "another thread or started later, and in particular a retry of the aborted one, behaves exactly as if the aborted one had never started.",
     ["fault_sequences", "schedules", "histories"],
     "for every operation, every point at which it can be aborted and every operation running beside or after it",
     "no test aborts an operation half-way",
     ALL, [("no shared object is modified during an operation", "src/request_validators.py, src/data/attributes.py"),
           ("results are only assembled in fresh objects", "src/data/schemas.py: _process_data")],
     observe=["return values and exceptions of the operations after and beside the aborted one"],
     technique=SIM,
     note=TRUST + "Faults are raised at function entries of /repo/src that are not inside cleanup code, and in hooks.")

prop("C04", "A fault inside an operation is never turned into a wrong answer",
     "When a fault occurs inside an operation (memory or stack exhaustion, cancellation, a deadline, or any "
     "exception in an application-supplied parser or dumper), the caller either gets that very fault as an exception "
     "or the complete result of the fault-free operation; it never gets data accepted with a check skipped, data missing, or another set of issues.",
     ["fault_sequences", "inputs"],
     "for every operation, every fault kind and every point at which it can occur",
     "no test lets a processor or an internal step fail with an exception",
     ALL, [("exceptions propagate; the few except clauses are narrow", "src/data/type.py, src/data/operator.py, src/filter.py"),
           ("user processors are called without a safety net", "src/data/attributes.py: Attribute._process, ComplexAttribute._process_complex")],
     observe=["the outcome of the operation in which the fault was injected"],
     technique="deterministic simulation: seeded fault injection at function entries and application hooks, compared with the fault-free outcome",
     note=TRUST + "19 exception types in hooks, 6 kinds at function entries.")

prop("C05", "Inputs are never modified, so a message can be delivered again",
     "No operation modifies the body, headers, query string, lists or containers that the caller passes in, also when "
     "it is aborted half-way. Delivering the very same objects again, one after the other, to several threads at once, or after "
     "an aborted attempt, gives every time the outcome of the first fault-free delivery.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "for every operation, every abort point and every number and interleaving of deliveries of the same objects",
     "tests build a new input for every call and compare results only, never the input afterwards",
     ALL, [("inputs are copied into containers before processing", "src/data/container.py: SCIMDataContainer.__init__"),
           ("query strings are copied", "src/request_validators.py")],
     observe=["a deep snapshot of the caller's objects before and after", "outcomes of every delivery"],
     technique=SIM,
     note=TRUST)

prop("C06", "The application may do anything with what it gets back",
     "Whatever the application does with the objects an operation returned (parsed and dumped bodies, issue reports, "
     "schema and filter descriptions), whether it overwrites, extends or empties them, no other operation, no result handed out "
     "elsewhere, no schema and none of the caller's inputs is affected.",
     ["histories", "inputs"],
     "for every operation, every later modification of its result and every operation afterwards",
     "tests never modify a result and then use the library again",
     ALL + ["src/assets/schemas"],
     [("results are built from fresh containers", "src/data/schemas.py: _process_data, src/data/container.py: to_dict"),
      ("descriptions are copies", "src/data/attributes.py: Attribute.to_dict, src/error.py: ValidationIssues.to_dict")],
     observe=["outcomes of operations after the results of earlier ones were defaced"],
     technique=SIM,
     note=TRUST)

prop("C07", "Schema registration is all-or-nothing and concerns one schema only",
     "Registering an extension either takes full effect on that one schema instance, including validators that already use it, "
     "or, when its URN is already taken in any letter case or reading it fails half-way, is refused and changes nothing at all. "
     "No construction or registration affects another schema instance (even when both are built from the same attribute objects or lists, "
     "and even when it happens at the same time on another thread) or modifies the attribute and processor lists that were passed in.",
     ["histories", "fault_sequences", "schedules", "configurations"],
     "for every sequence of schema constructions and extension registrations, every failing read of an extension and every interleaving on different schemas",
     "tests register one valid extension on one schema and never look at another schema or at a failed registration",
     ["src/data/schemas.py", "src/data/attributes.py", "src/assets/schemas"],
     [("duplicate check and copy-then-publish", "src/data/schemas.py: ResourceSchema.with_extension"),
      ("attributes are bound as copies", "src/data/schemas.py: BaseSchema._bound_attr_to_schema"),
      ("constructor lists are copied", "src/data/attributes.py: ComplexAttribute.__init__")],
     observe=["schema URNs, attribute lists, schema descriptions, and parse/dump outcomes of every schema after every event"],
     technique="deterministic simulation: seeded registration histories with failing application objects and interleaved threads, compared with a process that only had the successful registrations",
     note=TRUST + "Failures of a registration come from the application's extension objects (any read can fail); registration and use of the same schema are not concurrent.")

prop("C08", "Replicas give the same answer to the same operation",
     "Separately started processes running the same code answer every operation (" + SURFACE + ") identically: same data, same issues "
     "in the same order, same errors. The answer does not depend on hash seed, time zone, locale, wall-clock time, randomness, "
     "import order, garbage collection or working directory.",
     ["configurations", "inputs"],
     "for every operation and every pair of process environments",
     "tests run in one process with one environment at one time of day",
     ALL, [("no clock, locale, randomness or unordered iteration in the processing path", "src/data/type.py, src/data/operator.py, src/sorter.py, src/request_validators.py")],
     observe=["outcomes of the same script of operations on several replicas"],
     technique="deterministic simulation of replicas: seeded environments (scripted clock, entropy, hash seed, time zone, locale, import order, gc) and comparison of answers",
     note=TRUST + "Same interpreter and platform for all replicas.")

DEP = ("deterministic simulation: seeded histories of messages through a simulated deployment (lossy network, crashing nodes, "
       "faulty application, durable store) of the real code, every step compared with an executable reference model")
DTRUST = ("Exploration: seeded random search, not exhaustive. Trusts the reference model dst/model.py for the messages it judges; "
          "what it does not judge is listed in DESIGN.md and counted in the evidence. ")
REQ = "src/request_validators.py"

prop("C09", "Damaged messages and faulty answers are reported, never raised or half used",
     "Whatever arrives in a JSON body or in the query string of a request (POST, PUT, PATCH, list, search, bulk) after damage in transit or from a broken client, "
     "and whatever JSON-like body the application hands over as a response, parsing and dumping never raise: the caller gets issues. "
     "If there are issues no content is handed over; if there are none the content is complete and holds no rejected values.",
     ["inputs", "fault_sequences"],
     "for every message body with any part lost, duplicated, renamed, retyped or replaced, in every endpoint and direction",
     "tests feed a handful of wrong values per attribute; damage of arbitrary depth and shape in every endpoint is out of their reach",
     [REQ, "src/data/schemas.py", "src/data/attributes.py", "src/data/type.py", "src/data/container.py", "src/filter.py", "src/data/path.py", "src/sorter.py"],
     [("type errors become issues", "src/data/type.py: AttributeType.validate and subclasses, src/data/attributes.py: Attribute._process"),
      ("validation of one part stops the use of that part", "src/error.py: ValidationIssues.can_proceed"),
      ("content is dropped when there are issues", REQ + ": RequestData/ResponseData returned with body=None")],
     observe=["exceptions, returned body and issues of every parse_request/dump_response call"],
     technique=DEP,
     note=DTRUST + "Query strings are damaged within strings and lists of strings.")

prop("C10", "Conforming writes are accepted and stored unaltered, others refused",
     "A POST or PUT of a resource is accepted exactly when its body conforms to the schema (types, formats, required attributes, canonical values where enforced, "
     "listed schemas and extensions, one primary value at most, application-supplied checks), in any letter case of names. The application then gets exactly the content the client sent "
     "in canonical spelling, nothing added, lost, moved or changed (a PUT without the read-only parts), so that after any history of deliveries, crashes and restarts a GET returns the last acknowledged write.",
     ["inputs", "histories", "fault_sequences"],
     "for every resource content and every history of writes, damaged or redelivered messages, crashes and restarts",
     "tests compare a few fixed bodies; they do not know the right verdict and content for arbitrary combinations of attributes",
     [REQ, "src/data/schemas.py", "src/data/attributes.py", "src/data/type.py", "src/data/container.py", "src/attributes_presence.py", "src/assets/schemas"],
     [("body checks and canonical spelling", "src/data/schemas.py: BaseSchema.parse/_process, src/data/attributes.py: Attribute.parse"),
      ("required and read-only rules", REQ + ": ResourcesPOST and ResourceObjectPUT parse_request, src/attributes_presence.py")],
     state=[("durable store", "what the simulated application wrote from parsed content", "simulated")],
     observe=["verdict and content of every POST/PUT/GET", "content of the store against the model's"],
     technique=DEP, note=DTRUST)

prop("C11", "Only valid patches are accepted and no update touches read-only parts",
     "A PATCH request is accepted exactly when every operation in it is valid for the resource (known op in any letter case, path that resolves, value of the right type, nothing read-only, "
     "required attributes not removed) and the application then gets exactly the operations the client sent: same target, same condition, same value. Whatever history of PUT and PATCH requests a client sends, "
     "attributes that only the server may set keep the value the server gave them.",
     ["inputs", "histories", "fault_sequences"],
     "for every sequence of patch operations, targets, conditions and values and every history of updates",
     "tests try single operations against a few attributes; verdict and meaning of arbitrary sequences and conditions are not covered",
     [REQ, "src/assets/schemas/patch_op.py", "src/data/path.py", "src/filter.py", "src/data/schemas.py", "src/attributes_presence.py"],
     [("operation and path validation", REQ + ": ResourceObjectPATCH.parse_request, src/assets/schemas/patch_op.py"),
      ("path resolution", "src/data/path.py: PatchPath.parse"),
      ("read-only attributes dropped from PUT", REQ + ": parse_request of the object validators")],
     state=[("read-only attributes of stored resources", "id, meta, groups, inventoryId and parts of complex attributes", "simulated store")],
     observe=["verdict and operations of every PATCH", "read-only parts of every stored resource before and after each update"],
     technique=DEP, note=DTRUST)

prop("C12", "Clients get the attributes they may and want to see, and only those",
     "A response reaches the client only if it contains every required attribute and none that is never returned, was not requested (attributes=...) or was excluded (excludeAttributes=...), except those that are always returned. "
     "This holds for every way to ask (URL query or search request, attribute or sub-attribute, with or without URN, any letter case), for single, list and bulk responses, and for every wrong answer of the application; answers that respect the rules are delivered.",
     ["inputs", "fault_sequences", "histories"],
     "for every resource content, every attribute selection and every superfluous or missing attribute in an answer",
     "tests check a few selections against a few attributes; leaks need an unusual combination of selection, nesting and content",
     ["src/attributes_presence.py", REQ, "src/data/attributes.py", "src/assets/schemas/list_response.py"],
     [("presence rules", "src/attributes_presence.py: AttributePresenceChecker"),
      ("selection handed from request to response", REQ + ": parse_request query_string presence_checker")],
     observe=["bodies that reach the client"],
     technique=DEP, note=DTRUST + "returned=request attributes are not judged.")

prop("C13", "Inconsistent responses are withheld, correct ones delivered unaltered",
     "If the application's answer contradicts the protocol (wrong status, Location header missing or different from meta.location, wrong resource type, schemas that do not match the content, invalid content, error body not fitting its status, "
     "counts of a list that do not add up, a bulk answer that does not fit its operations or has more errors than the client allowed), it is withheld; every answer that is consistent reaches the client with exactly the application's content.",
     ["fault_sequences", "inputs"],
     "for every stored resource, every endpoint and every wrong answer of the application",
     "tests inject single faults into fixed answers; combinations with arbitrary content and every endpoint are not covered",
     [REQ, "src/data/schemas.py", "src/assets/schemas/list_response.py", "src/assets/schemas/bulk_ops.py", "src/assets/schemas/error.py"],
     [("consistency checks of responses", REQ + ": validate_* functions and dump_response of every class"),
      ("content checks", "src/data/schemas.py: BaseSchema.dump")],
     observe=["bodies that reach the client, and whether they do"],
     technique=DEP, note=DTRUST)

prop("C14", "List and search answers hold only matching resources, in order, paged right",
     "Filter, sorting and paging of a list, root or search request reach the application with the meaning the client gave them: the parsed filter selects exactly the stored resources that satisfy the condition, the parsed sorter orders them by the attribute, "
     "and of the answers the application then gives, those with a resource that does not match, in wrong order, or in wrong number never reach the client, while correct ones do, unaltered.",
     ["inputs", "histories", "fault_sequences"],
     "for every condition, sort attribute, page and store content, and every wrong selection, order or count in an answer",
     "tests match fixed filters against fixed data; they can not decide arbitrary conditions over arbitrary resources",
     ["src/filter.py", "src/data/operator.py", "src/sorter.py", REQ, "src/assets/schemas/list_response.py", "src/assets/schemas/search_request.py"],
     [("filter grammar and evaluation", "src/filter.py: Filter.deserialize, src/data/operator.py"),
      ("order", "src/sorter.py: Sorter"),
      ("checks of list answers", REQ + ": validate_resources_filtered, validate_resources_sorted, validate_number_of_resources, validate_pagination_info")],
     observe=["resources selected and ordered by the parsed filter and sorter", "list bodies that reach the client"],
     technique=DEP, note=DTRUST)

prop("C15", "Operations in a bulk message mean the same as on their own",
     "A bulk request is accepted exactly when the envelope is valid, the number of operations allowed, and each operation on its own would be accepted by the endpoint it addresses; each operation then carries the content it would have on its own, in the client's order. "
     "A bulk answer reaches the client exactly when each of its parts could be sent on its own and the envelope is consistent (method, bulkId, location, status, version, number of errors), and then unaltered.",
     ["inputs", "fault_sequences", "histories"],
     "for every sequence of operations of every kind and resource type, and every damaged operation or answer in it",
     "tests use one or two fixed operations; equivalence with single requests is not tested",
     [REQ, "src/assets/schemas/bulk_ops.py", "src/assets/config.py"],
     [("dispatch of operations to the validators of the resource types", REQ + ": BulkOperations.parse_request/dump_response"),
      ("envelope checks", "src/assets/schemas/bulk_ops.py")],
     observe=["verdict and content of bulk requests against the single endpoints", "bulk bodies that reach the client"],
     technique=DEP, note=DTRUST)

prop("C16", "Discovery documents say what the service enforces and arrive unaltered",
     "The documents a deployment serves from its schemas (Schemas, ResourceTypes, ServiceProviderConfig) describe exactly the attributes, types, cardinality, mutability, visibility, canonical values and sub-attributes the service enforces "
     "in traffic, each extension in its own document, at any time in a node's life and after every restart. A correct document reaches the client unaltered and complete; one that is malformed in any place (unknown type, mutability, visibility or uniqueness, "
     "missing required parts, string attribute without caseExact, wrong counts) is withheld. Filters on these endpoints are refused.",
     ["inputs", "fault_sequences", "histories"],
     "for every schema, every place in its description and every damaged document, before and after any traffic",
     "tests dump one hand-written document; none compares what a schema object says about itself with what it enforces",
     ["src/data/schemas.py", "src/data/attributes.py", "src/assets/schemas", REQ, "src/assets/config.py"],
     [("descriptions", "src/data/attributes.py: Attribute.to_dict, src/data/schemas.py: get_schema_rep, SchemaExtension.to_dict"),
      ("schemas of the documents", "src/assets/schemas/schema.py: dump_attributes, resource_type.py, service_provider_config.py"),
      ("endpoints", REQ + ": SchemasGET, ResourceTypesGET, ResourceObjectGET")],
     observe=["documents that reach the client against the tables that also judge all other traffic (dst/spec.py)"],
     technique=DEP, note=DTRUST + "Descriptions of User and Group attributes and the order of attributes are not compared.")

prop("C17", "Issue reports name every damaged place, and no other",
     "When values in an otherwise conforming message are damaged in transit, or in an otherwise correct answer of the application (wrong type or format, non-canonical value, item that is not an object, two primary values, unknown schema, required part missing, "
     "part that is never returned), the issue report has an entry with the fitting code at exactly the location of each damaged place (attribute, index, sub-attribute, extension URN, operation or resource number), and no entry outside these places. "
     "Missing or superfluous parts may be left out of a report that names wrong values. This holds for single resources, patches, lists, searches and bulk messages in both directions.",
     ["inputs", "fault_sequences"],
     "for every message and every set of damaged places in it",
     "tests compare reports of fixed single mistakes; several mistakes at arbitrary places of arbitrary content are out of their reach",
     ["src/error.py", REQ, "src/data/schemas.py", "src/data/attributes.py", "src/attributes_presence.py", "src/assets/schemas"],
     [("locations are composed on the way up", "src/error.py: ValidationIssues.merge; callers in src/data/attributes.py, src/data/schemas.py, " + REQ),
      ("parts already refused are not checked again", "src/error.py: can_proceed, src/attributes_presence.py")],
     observe=["to_dict() of the issues of every parse_request/dump_response call against the injected damage"],
     technique=DEP, note=DTRUST + "Up to 4 damaged places per resource. Damage to meta in answers is not used here (C13).")

prop("C18", "Every operation ends, in steps that grow at most with the square of its size",
     "Whatever message a client sends, and however large it is (filters with many or deeply nested conditions, unbalanced brackets or quotes, multi-valued attributes with many items, valid or not, long patches, bulk requests, lists and attribute selections), "
     "every parse_request and dump_response call ends, and the number of steps it takes grows at most with the square of the size of the message.",
     ["inputs", "fault_sequences"],
     "for every kind of message, valid or damaged, and every size",
     "tests use small messages only; none looks at how the work grows, so a parser that never ends or takes exponential time on some shape of message passes them",
     ["src/filter.py", "src/data/operator.py", "src/data/path.py", "src/data/schemas.py", "src/data/attributes.py", "src/error.py", "src/attributes_presence.py", REQ],
     [("filter parser", "src/filter.py: Filter.deserialize"),
      ("collection of issues", "src/error.py: ValidationIssues.merge"),
      ("presence checks over attributes and items", "src/attributes_presence.py")],
     observe=["executed lines of /repo/src for a message of size n, 2n and 4n"],
     technique="deterministic simulation: clients that send messages of growing size, with a simulated clock that counts executed lines of the code under test; seeded search over shapes of messages; liveness as progress within a bounded number of steps",
     note="Sizes up to 80 conditions or items. Work inside C code of the interpreter is bounded by 90 s of wall time per call instead.")

prop("C19", "Contents are records: what was assigned is what is read, in any letter case",
     "For every content (SCIMDataContainer), whatever was assigned to it, deleted from it, refused or broken off before: an attribute, sub-attribute or extension attribute reads, in any letter case of its name and of the extension's schema, as what was last assigned to it, and as absent after it was deleted; a complex value or item that was read is the place itself, so what is assigned through it is part of the content; "
     "an assignment or deletion concerns the named attribute only, never another one, another content made of the same dictionary or the dictionary itself; an assignment that has no place to go (a sub-attribute of something that is not complex) is refused with an exception and changes nothing; "
     "one that breaks off because the items of the assigned list can not be fetched leaves all other attributes as they were, and repeating it gives what it would have given; deleting what is absent does nothing; "
     "to_dict() gives every attribute once, with its current value; two contents, or a content and a dictionary, are equal exactly when they have the same attributes up to letter case with equal values, in either order of comparison.",
     ["histories", "inputs", "fault_sequences"],
     "for every sequence of assignments, deletions, refused and broken-off assignments, readings and comparisons on any number of contents",
     "tests assign to and read from fresh containers in one or two steps; a second spelling of a name, an assignment over a previous value, a refused or broken-off assignment, or comparison in both directions needs a sequence no test has",
     ["src/data/container.py"],
     [("item access", "src/data/container.py: SCIMDataContainer.__setitem__, __getitem__, __delitem__"),
      ("comparison and export", "src/data/container.py: SCIMDataContainer.__eq__, to_dict")],
     observe=["container[name]", "container[name] = value", "del container[name]", "container.to_dict()", "container == other"],
     technique="deterministic simulation: handlers that work on several contents in seeded order, with refused assignments and lists whose items fail to arrive as faults; refinement against a reference model after every event",
     note="Up to 30 events on 2-3 contents. Dictionaries assigned as they are (not wrapped), and dictionaries that spell one attribute twice, stay outside.")

prop("C20", "Issue reports lose, invent and share nothing",
     "For every history of issue reports (ValidationIssues) that are added to, merged under a location, extracted with get and emptied with pop, with locations given as tuples or lists: a report contains exactly the issues that were put into it and not popped, each at its location, in order, with code, message and context; "
     "get returns the issues at and below a location, and pop removes and returns exactly the issues of the given code at that location; the returned report and the original are independent from then on, as are a merged report and its source; "
     "has_issues tells of a location whether there are issues at or below it; can_proceed tells whether an issue that stops the proceeding was reported, and not popped, at the location or above it; to_dict shows all of this and nothing else.",
     ["histories", "inputs"],
     "for every sequence of additions, merges, extractions and removals on any number of reports",
     "tests see reports at the end of one validation only; what pop leaves behind, what an extracted report shares with its source, and whether merged issues stop the proceeding shows only in longer histories",
     ["src/error.py"],
     [("collection of issues", "src/error.py: ValidationIssues.add, merge, get, pop"),
      ("questions about reports", "src/error.py: ValidationIssues.has_issues, can_proceed, to_dict")],
     observe=["ValidationIssues.to_dict", "has_issues", "can_proceed", "get", "pop"],
     technique="deterministic simulation: reporters that add to, merge, split and empty several reports in seeded order; refinement against a reference model after every event",
     note="Up to 30 events on 3-4 reports; 14 locations are asked about after every event.")

prop("N01", "Attribute references compare equal exactly up to letter case",
     "Two attribute references (AttrRep) are equal exactly when attribute and sub-attribute are the same up to letter case and so are their schemas, if both name one; a reference that is printed and parsed again names the same attribute.",
     ["inputs"], "for every pair of names", "tests compare a handful of names",
     ["src/data/container.py"], [("equality and parsing", "src/data/container.py: AttrRep.__eq__, AttrRep.parse")],
     observe=["results of ==, repr and parse"],
     na="Law of an immutable value object: no schedule, time, fault or history for a simulator to vary. Deciding it means enumerating or proving over inputs, "
        "which is another technique. Its consequences (letter case of names in messages, filters, paths, selections and contents) are inputs of C10-C17 and C19.")
