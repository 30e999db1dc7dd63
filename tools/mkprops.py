#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 **({"state":state} if state else {}),
                 "observe_at":observe,"hook_needed":None}})
I=["inputs"]; IH=["inputs","histories"]; IC=["inputs","configurations"]; ICH=["inputs","configurations","histories"]

p("C01","Attribute references parse, print and compare faithfully",
  "A text is accepted as an attribute reference exactly when it is an optional colon-separated schema prefix, an attribute name and an optional dotted sub-attribute ('$ref' being a legal name in both places), and the accepted reference decomposes into exactly those parts and prints back as the same text. Two references are equal exactly when attribute and sub-attribute agree ignoring letter case and the schemas agree ignoring case or one of them is absent; looking an attribute up in a set of attributes by reference finds the attribute it names, or nothing.",
  I,"every text, every pair of references, every attribute set",
  "tests sample a dozen references; the grammar and the case/schema wildcards multiply",
  ["src/data/container.py","src/data/attributes.py"],
  [("AttrRep.parse/__eq__","src/data/container.py AttrRep"),("Attributes.get","src/data/attributes.py Attributes")],
  ["return values of parsing, equality, repr and lookup"])
p("C02","Resource data behaves as a case-insensitive map over any history",
  "After any sequence of assignments, reads and deletions (by name, by sub-attribute, or by an attribute of a schema extension, in any letter case), a read returns the value last assigned under that name in any casing, or 'missing' if there is none, and the exported plain data holds exactly the live attributes, each once. Assigning or deleting one attribute never changes another, a list assigned to a sub-attribute is distributed over the items in order, and reading or deleting an absent attribute is harmless.",
  IH,"every sequence of operations on any initial data",
  "tests perform one or two operations on fixed data; aliasing and case interactions need histories",
  ["src/data/container.py"],
  [("SCIMDataContainer","src/data/container.py")],
  ["values read back and the exported dictionary after each operation"],
  [{"name":"_data/_lower_case_to_original","meaning":"stored attributes and spelling of each name"}])
p("C03","The validation-issue collection loses, invents and leaks nothing",
  "After any sequence of adding, merging (with a location prefix), extracting and popping issues, the collection reports exactly the issues put in and not popped, each at its full location. Processing may continue at a location exactly when no still-held blocking issue lies at that location or an ancestor of it, a location has issues exactly when one is held at or below it, popping removes every issue of that code at that location and nothing else, and merging or extracting never changes the collection read from.",
  IH,"every history of operations over several collections",
  "tests use it only indirectly; its algebra is exercised on a handful of shapes",
  ["src/error.py"],[("ValidationIssues.add/merge/get/pop/can_proceed/has_issues/to_dict","src/error.py")],
  ["to_dict, can_proceed, has_issues after each operation"],
  [{"name":"_issues/_stop_proceeding","meaning":"issues per location and which of them block"}])
p("C04","Attribute values are accepted exactly when they conform to their definition",
  "For every attribute definition, a value is accepted in a request or a response exactly when it conforms to the declared type (including the text syntax of binary, external-reference and date-time values and whole-number decimals standing for integers), plurality, enforced canonical values (ignoring case unless case-exact) and sub-attribute definitions, and at most one item of a multi-valued complex attribute is primary. Each non-conforming part is reported at its own location while conforming parts are kept, null means unassigned and is accepted, unknown sub-attributes are dropped, and accepted values are returned unchanged apart from type normalisation (date-time text to date-time and back, whole numbers to the declared numeric type).",
  IC,"every value against every attribute definition, both directions",
  "the product of types, plurality, canonical values, nesting and values is unbounded; tests try a few per type",
  ["src/data/type.py","src/data/attributes.py"],
  [("AttributeType.parse/dump","src/data/type.py"),("Attribute/ComplexAttribute parse/dump","src/data/attributes.py")],
  ["returned value and reported issues"])
p("C05","No input makes the library raise",
  "Whatever JSON-shaped body, query string, header set, filter text, sort text, attribute list or patch path a peer supplies, every request parser and response checker returns a result and a collection of issues instead of raising. Query parameters are texts or lists of texts; everything else may have wrong types at any depth, missing or null parts, oddly-cased or clashing keys, and non-ASCII or extreme values, and the reported issues can always be rendered.",
  I,"every JSON-shaped input to every public validator and parser",
  "robustness is a property of all malformed inputs; tests contain only selected malformed ones",
  ["src/request_validators.py","src/data/schemas.py","src/filter.py","src/data/path.py","src/assets/schemas/patch_op.py","src/assets/schemas/bulk_ops.py","src/assets/schemas/list_response.py"],
  [("request validators","src/request_validators.py"),("schema processing","src/data/schemas.py")],
  ["absence of an exception; a result and issues are returned"])
p("C06","Resources are parsed and dumped exactly as their schema defines",
  "Parsing or dumping a resource keeps exactly the attributes its schema and extensions define (matched ignoring case and delivered under their canonical name), each processed according to its definition, and drops everything else. Issues are reported exactly for the non-conforming attributes, at the attribute's location (under the extension's identifier for extension attributes), a non-object is rejected, and what an accepted request yields is accepted in a response and, read again, gives the same resource (its declared resource type aside).",
  IC,"every body against every built-in or user-defined schema, both directions",
  "tests cover one User body and a few single-field mutations",
  ["src/data/schemas.py","src/data/attributes.py","src/assets/schemas/user.py","src/assets/schemas/group.py"],
  [("BaseSchema.parse/dump","src/data/schemas.py"),("ResourceSchema.with_extension","src/data/schemas.py")],
  ["returned data and issues"])
p("C07","The declared schemas list is checked against the data",
  "Whenever the list of schema identifiers of a message or resource is present and well formed, it is accepted exactly when it contains the main schema, contains only identifiers known for that resource, and names every extension whose data is present, all ignoring letter case. Each of the three defects is reported once (per missing extension for the last) under the schemas attribute, whatever the other contents are.",
  IC,"every schemas list and every presence pattern of extension data",
  "tests try three lists; combinations of casing, duplicates, unknowns and several extensions are not reached",
  ["src/data/schemas.py"],[("validate_schemas_field","src/data/schemas.py")],
  ["issues under the schemas attribute"])
p("C08","Required and returned rules decide which attributes must or must not appear",
  "In a response, an attribute that is never returned is always reported when it carries a value; an always-returned one is never reported as unwanted; any other is reported when it was excluded by name or when a list of requested attributes neither names it nor its parent or child. A required attribute that is missing, null or empty is reported unless it is exempt or a requested-attributes list leaves it out (always-returned ones stay required in responses); requests are only checked for required attributes, and every item of a multi-valued attribute is checked at its own index.",
  IC,"every data shape, schema, include/exclude list and direction",
  "the rules multiply returned-kind, requiredness, include/exclude lists, nesting and direction; tests sample about twenty points",
  ["src/attributes_presence.py"],[("AttributePresenceChecker.__call__/parse","src/attributes_presence.py")],
  ["issues reported"])
p("C09","Filter texts parse to exactly the expression the SCIM grammar gives them",
  "A filter text is accepted exactly when it is well formed (comparisons and presence tests, complex-attribute brackets, and/or/not and parentheses, operator names in any case), and the resulting expression is the one given by the grammar: 'not' binds tighter than 'and', which binds tighter than 'or', parentheses override, and quoted text is taken literally whatever it contains. Ill-formed texts yield an issue and no filter; literals keep their type and value.",
  I,"every filter text of any size and nesting",
  "the language is infinite; the parser works by textual placeholder substitution whose failures need particular positions and repetitions",
  ["src/filter.py","src/utils.py"],[("Filter.parse","src/filter.py")],
  ["the exported expression tree, or issues"])
p("C10","Filter matching follows SCIM comparison semantics",
  "For every filter and resource the verdict equals the one given by the comparison semantics of the attribute's type: text comparison respects case-exactness, a multi-valued attribute matches if any value does, a bracketed filter matches if a single item satisfies all of it, 'and', 'or' and 'not' combine verdicts logically, an attribute unknown to the schema never matches, and a comparison between incomparable kinds does not match. Missing data fails to match in strict mode and is given the benefit of the doubt in lenient mode, and matching never raises.",
  IC,"every filter expression, resource and mode",
  "three-valued logic over nested expressions, types and missing data; tests check operators one at a time",
  ["src/data/operator.py","src/filter.py"],[("operators' match","src/data/operator.py"),("Filter.__call__","src/filter.py")],
  ["match verdict"])
p("C11","Sorting returns a stable, correctly ordered permutation",
  "Sorting any list of resources by any attribute in either direction returns a permutation of the list ordered by that attribute's value (text ignoring case unless the attribute is case-exact, the primary item's value or sub-attribute for multi-valued complex attributes, the first value for other multi-valued ones), keeping the original relative order of ties. Resources without a usable value come last when ascending and first when descending, and the input is left as it was.",
  IC,"every list of resources, sort attribute, direction and mix of schemas",
  "ordering, stability and missing-value placement are claims over all lists; tests sort two or three items",
  ["src/sorter.py"],[("Sorter.__call__","src/sorter.py")],
  ["returned list"])
p("C12","Create and replace requests admit exactly the valid resources",
  "A create or replace request is accepted exactly when the body conforms to the resource schema, all required attributes are present (for creation, those issued by the server are exempt) and the requested-attributes parameters are valid and not both given; any issue withholds the body. An accepted replace body carries no read-only attribute at any level, and otherwise the accepted body is exactly the parsed resource; requested attributes from the query string become the matching include or exclude rule.",
  IC,"every body, query string and resource schema",
  "tests use one valid body and a few invalid ones",
  ["src/request_validators.py"],[("ResourceObjectPUT/ResourcesPOST/ResourceObjectGET.parse_request","src/request_validators.py"),("parse_requested_attributes","src/request_validators.py")],
  ["request data and issues"])
p("C13","Patch paths parse to exactly the target they denote",
  "A patch path is accepted exactly when it is an attribute reference, or a complex attribute with one bracketed filter optionally followed by a sub-attribute; the result denotes precisely that attribute, filter and sub-attribute, with quoted text inside the filter taken literally. Every other text yields an issue and no path, and equal paths denote equal targets.",
  I,"every path text",
  "the language is infinite; tests list some twenty paths",
  ["src/data/path.py"],[("PatchPath.parse","src/data/path.py")],
  ["parsed parts or issues"])
p("C14","Patch requests admit exactly the modifications the schema allows",
  "A patch request is accepted exactly when every operation is add, replace or remove (in any letter case), targets an attribute the schema knows, never modifies a read-only attribute or sub-attribute, never removes a required one, carries a value conforming to its target with the required sub-attributes of new items (add needs a value; remove needs a path), and adds to a bracketed selection only through a sub-attribute. Each faulty operation is reported at its own index, other operations are unaffected, operations keep their order, and any issue withholds the body.",
  IC,"every list of operations against every resource schema",
  "operation, path form, mutability, requiredness and value shape multiply; tests cover individual rows",
  ["src/assets/schemas/patch_op.py","src/request_validators.py"],
  [("PatchOp.parse","src/assets/schemas/patch_op.py"),("ResourceObjectPATCH.parse_request","src/request_validators.py")],
  ["parsed operations and issues"])
p("C15","Single-resource and error responses are checked for consistency",
  "A response carrying a resource is accepted exactly when the status is the one its operation requires, the resource conforms and obeys the returned rules, its declared type is the schema's, a location header is present where required and equals the resource's own location whenever one is given; deletions and empty patch responses need status 204 (the latter only when no attributes were requested). An error response is accepted exactly when its body conforms, carries a known error type if any, and its status equals the HTTP status, which lies in the accepted range.",
  IC,"every status, header set, body and requested-attribute rule",
  "tests vary one element at a time",
  ["src/request_validators.py","src/assets/schemas/error.py"],
  [("_dump_resource_output_body and dump_response of the validators","src/request_validators.py"),("Error.dump_response","src/request_validators.py")],
  ["response data and issues"])
p("C16","List responses are consistent with their contents and the query",
  "A list response is accepted exactly when its counters agree with the resources it carries and with the requested count and start index (a requested start below 1 counts as 1, a negative count as 0), pagination fields are present when the page is partial, every resource belongs to one of the allowed schemas (inferred from its declared schemas when several are allowed), conforms to it and obeys the returned rules, matches the requested filter, and the resources are in the requested order. Faults are reported at the faulty resource's own index, and one odd resource never hides faults of another.",
  IC,"every list of resources, counters, filter, sorter, count and attribute rule",
  "cross-field conditions over lists; tests use two users",
  ["src/request_validators.py","src/assets/schemas/list_response.py"],
  [("_dump_resources_get_response","src/request_validators.py"),("ListResponse.dump","src/assets/schemas/list_response.py")],
  ["response data and issues"])
p("C17","Queries mean the same in a query string and in a search request",
  "Filter, sort attribute and order, requested or excluded attributes, count and start index are understood in a query string exactly as given, and a search-request body carrying the same values is understood identically. Sorting is ascending unless descending order is asked for, requested and excluded attributes cannot be combined, malformed parts are reported at their own parameter, and a discovery endpoint refuses a filter.",
  I,"every combination of query parameters in both forms",
  "the two forms are parsed by different code and tests never compare them",
  ["src/request_validators.py","src/assets/schemas/search_request.py"],
  [("_parse_resources_get_request","src/request_validators.py"),("SearchRequest.parse","src/assets/schemas/search_request.py")],
  ["parsed query objects and issues"])
p("C18","Bulk requests admit exactly the valid batches of operations",
  "A bulk request is accepted exactly when its operations do not exceed the configured maximum and each one has a known method (in any letter case), a path of the right kind for it naming a known resource, a bulk identifier for creations, and data that the corresponding single-resource request would accept; data of deletions and reads is discarded. Each fault is reported at its operation's index (data faults below that operation's data), accepted data is exactly what the single-resource request yields, and any fault withholds the whole body.",
  IC,"every batch of operations and configured maximum",
  "combinations of methods, paths, data and limits; tests use one batch and a few mutations",
  ["src/request_validators.py","src/assets/schemas/bulk_ops.py"],
  [("BulkOperations.parse_request","src/request_validators.py"),("validate_request_operations","src/assets/schemas/bulk_ops.py")],
  ["parsed batch and issues"])
p("C19","Bulk responses are checked operation by operation",
  "A bulk response is accepted exactly when its status is 200, each operation has a method, a numeric status, a bulk identifier for creations, a location naming a known resource (optional only for failed creations), and a response that is a valid error body for failures and, when given, a resource the corresponding single-resource response would accept whose location and version agree with the operation's, and the failures do not exceed the permitted number. Each fault is reported at its operation's index and any fault withholds the body.",
  IC,"every list of operation results and permitted number of errors",
  "per-operation conditions over lists with cross-field consistency; tests use a few batches",
  ["src/request_validators.py","src/assets/schemas/bulk_ops.py"],
  [("BulkOperations.dump_response","src/request_validators.py"),("validate_response_operations","src/assets/schemas/bulk_ops.py")],
  ["response data and issues"])
p("C20","Every call is independent of earlier calls and leaves its input alone",
  "The outcome of any parse, dump, match or sort depends only on its arguments: repeating it on the same validator or on a fresh one, after any history of other (accepted or rejected) calls, gives the same result and issues. Bodies, headers and lists passed in are not modified, and results of different calls share no mutable state.",
  ICH,"every history of calls on shared and fresh validators",
  "shared module-level definitions and mutable defaults leak only across particular histories; each test starts afresh",
  ["src/request_validators.py","src/data/schemas.py","src/data/attributes.py","src/error.py","src/data/container.py"],
  [("shared schema and attribute objects","src/data/schemas.py, src/assets/schemas"),("container construction copies","src/data/container.py")],
  ["outcome of a repeated call; deep comparison of inputs before and after"],
  [{"name":"schema/attribute objects","meaning":"shared definitions that must stay constant"}])
p("C21","Data is released only when it is free of issues",
  "A validator that reports any issue about a body releases no body, and one that reports none releases the complete body, in which every attribute is known to the schema, conforms to its definition and no placeholder for invalid or missing data remains. What a response validator releases for a single resource is plain data that the resource's schema accepts again.",
  IC,"every input to every validator",
  "an absence claim over all inputs and all validators",
  ["src/request_validators.py"],[("body gating in every parse_request/dump_response","src/request_validators.py")],
  ["released body and issues"])
p("C22","Built-in schemas and their discovery documents state the SCIM definitions",
  "The built-in User, Enterprise User, Group, Schema, ResourceType and service-provider-configuration schemas and the message schemas define exactly the attributes, types, plurality, requiredness, case-exactness, mutability, returned and uniqueness characteristics, reference types and canonical values they have at the pinned version. The discovery representation of any schema states exactly the characteristics that validation enforces, attribute by attribute, and is itself an acceptable schema document. Every ready-made error carries the scimType it is named after, status 400 and a text, and is an acceptable error body.",
  ["configurations","inputs"],"every attribute of every built-in schema and every user-defined schema",
  "no test reads the definitions as a whole; a changed flag passes unless some test happens to use that attribute",
  ["src/assets/schemas/user.py","src/assets/schemas/group.py","src/assets/schemas/schema.py","src/assets/schemas/resource_type.py","src/assets/schemas/service_provider_config.py","src/data/schemas.py","src/data/attributes.py"],
  [("schema definitions","src/assets/schemas"),("get_schema_rep/to_dict","src/data/schemas.py, src/data/attributes.py")],
  ["attribute characteristics, discovery documents"])
p("C23","Schemas composed with extensions stay consistent and independent",
  "After any sequence of adding extensions to resource schemas, each schema knows exactly its own identifier and those of the extensions it accepted, in order; adding an extension whose identifier (ignoring letter case) the schema already has is refused with an error and changes nothing. The schema's attributes, its discovery document, lookup by reference and access by name, and the parsing of data all reflect exactly its core attributes followed by those of its extensions. Schemas sharing attribute or extension definitions never affect each other, and the definitions and lists they were built from stay unchanged.",
  ["histories","configurations"],"every sequence of extensions added to any schemas sharing definitions",
  "shared definition objects and name collisions appear only over sequences of declarations; no test adds more than one extension",
  ["src/data/schemas.py","src/data/attributes.py"],
  [("ResourceSchema.with_extension","src/data/schemas.py"),("Attributes","src/data/attributes.py"),("get_schema_rep","src/data/schemas.py")],
  ["identifiers, attributes, lookups, document and parse outcome of every schema after each step"],
  [{"name":"_attrs/_schema_extensions","meaning":"attributes and extensions a schema knows"}])
p("C24","Inconsistent parts are refused when they are put together",
  "Building a piece of the vocabulary directly succeeds exactly when its parts fit together. An attribute reference needs well-formed attribute and sub-attribute names, and a schema when it claims to belong to an extension. A patch path with a value selection or a selected sub-attribute needs a plain attribute, a selection over that same attribute, and a sub-attribute of that same attribute. External and URI reference attributes can declare no other reference type. A filter operator takes only values it can compare with (substring operators no integers, booleans or null; ordering operators no booleans or null). A service provider configuration that supports bulk or filtering states its limits. A data container takes only keys that are well-formed references, and a refused key changes nothing. What is accepted reads back exactly as given; anything else raises ValueError. Attribute definitions compare equal exactly when name, type, reference types, canonical values and all flags agree (ignoring letter case of names, and of canonical values unless case-exact).",
  ["all inputs","configurations"],"every combination of names, types, flags, operators and limits",
  "the constructors' rules interact (type x multi-valued x canonical x case-exact, path x filter x sub-attribute), tests pick a few pairs",
  ["src/data/container.py","src/data/path.py","src/data/attributes.py","src/data/operator.py","src/assets/config.py","src/data/container.py"],
  [("AttrRep.__init__","src/data/container.py"),("PatchPath.__init__","src/data/path.py"),("Attribute.__init__","src/data/attributes.py"),("BinaryAttributeOperator","src/data/operator.py"),("create_service_provider_config","src/assets/config.py")],
  ["whether a construction succeeds and the parts it then reports","equality of attribute definitions; a reference, path, filter, definition or data object equals nothing of another kind"],
  [])
p("C25","Issue details describe the actual problem",
  "Every reported issue, asked for with messages and contexts, carries exactly the context entries of its error code, its message mentions each of them, and their values describe the call: the provided type or value is the one found at the issue's location and differs from the expected one, expected types and allowed values are those of the attribute's definition, statuses, limits, totals and parameters are those of the call, and whatever is quoted from a filter or patch path is literally part of the text that was given.",
  ["all inputs"],"every refused input of every part",
  "contexts are assembled at many call sites with values from different layers; tests compare contexts for a handful",
  ["src/error.py","src/filter.py","src/data/attributes.py","src/assets/schemas/bulk_ops.py"],
  [("ValidationError","src/error.py"),("ValidationIssues.to_dict","src/error.py"),("Filter._encode_placeholders","src/filter.py")],
  ["rendered issues with message and context"],
  [])
p("C26","What a request asks for is what its response is checked against",
  "Reading a request with a validator and passing the filter, sorter, presence rule, count and start index it yields (or a bulk request's failOnErrors) to the same validator's response check gives exactly the outcome of checking the response against that query: resources that do not fit, come out of order, exceed the count or carry attributes not asked for are reported, and nothing else. An honest answer, the fitting resources, in order, and of these the page asked for (a start below 1 meaning 1 and a negative count 0), is accepted whenever its resources are valid and carry nothing that was not asked for.",
  ["all inputs","histories"],"every request and every response to it, for lists, the server root, search requests, single resources and bulk requests",
  "the request side and the response side are tested apart, with hand-made filters and sorters on the response side; nothing tests that what one yields is understood by the other",
  ["src/request_validators.py","src/sorter.py","src/filter.py","src/attributes_presence.py"],
  [("_parse_resources_get_request","src/request_validators.py"),("_dump_resources_get_response","src/request_validators.py"),("SearchRequestPOST","src/request_validators.py")],
  ["outcome of an exchange: the request's issues, or the response data and issues","what filter and sorter select and order"],
  [])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
