"""Writes /verif/properties.jsonl (the list is maintained here so that every line stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}})
V = "aas_test_engines/test_cases/v3_0/"
F = "aas_test_engines/"
p("C01", "Structural verdict is exact for every class of the metamodel",
  "A JSON document is structurally accepted if and only if every object has all mandatory attributes, no attribute outside its class, values of the declared kind (object, array, string, boolean, enumeration literal), no empty array where one or more items are required, and a matching model type wherever one is needed (identifiables and every abstractly typed position). Each structural error makes the verdict an error; if there is one, semantic constraints are reported as skipped.",
  ["inputs"], "every JSON value offered as an environment or as one of the other metamodel classes",
  "The fixtures sample a few dozen documents; the statement ranges over every class, attribute, position and wrong kind of value, and over every combination of them.",
  [V + "parse.py", V + "model.py", V + "adapter.py", F + "reflect.py"],
  ["parse() dispatches on the reflected type; parse_concrete_object reports missing and unknown attributes", "dataclasses of model.py are the class table", "get_model_type/discriminator selects the concrete class"])
p("C02", "Constrained strings: lengths, characters, patterns, languages",
  "A string attribute is accepted exactly if its length lies in the declared bounds (counted in characters), it contains only characters XML can carry, and it matches the declared form: version/revision numbers, content types, paths as URI references, xs:dateTime, durations, idShorts, BCP-47 language tags, and non-empty length-limited language texts. This holds at the exact boundaries and for every attribute of that type, wherever it occurs.",
  ["inputs"], "every string in every string-typed attribute of the metamodel",
  "Tests probe a few lengths of a few attributes; the bound, the character classes and the grammars have infinitely many strings on both sides of the boundary.",
  [F + "reflect.py", V + "model.py", F + "data_types.py"],
  ["StringFormattedValue checks min/max length, AASd-130 characters and pattern", "LangStringSet.check_language/check_text", "regular expressions for URI, BCP-47, dateTime, duration"])
p("C03", "Reference key chains obey AASd-121 to AASd-128",
  "For every reference anywhere in a document, each of the constraints AASd-121, 122, 123, 124, 125, 126, 127 and 128 is reported as violated if and only if the reference's type and its chain of key types and values violate it. No reference that satisfies all of them causes such a report.",
  ["inputs"], "all reference types and all finite key chains over the 24 key types, in every place a reference can occur",
  "24 key types in chains of any length and two reference types give a space the handful of example references does not begin to cover.",
  [V + "model.py"], ["Reference.check_aasd_121 .. check_aasd_128", "the key-type sets GloballyIdentifiables, FragmentKeys, ..."])
p("C04", "Constraints on submodels, elements and shells are decided exactly",
  "The constraints on id shorts (AASd-002, 022, 117, 120, 134), on lists (AASd-107, 108, 109, 114), on entities and assets (AASd-014, 116, 131, 133), on qualifiers, semantic ids and categories (AASd-090, 118, 119, 129) and on the kind of reference required (observed elements, brokers, derivation, submodels of a shell) are each reported if and only if violated. This is so for elements at every position: in submodels, collections, lists, entities, annotations and operation variables.",
  ["inputs"], "every document over shells, submodels and all submodel element classes, at every nesting",
  "Each constraint quantifies over siblings, indices and nesting positions; tests exercise one shape each, several constraints none at all.",
  [V + "model.py", V + "parse.py"], ["check_* methods of the model classes, run by check_constraints on every object"])
p("C05", "Administrative and IEC 61360 constraints are decided exactly",
  "The constraints on administrative information (AASd-005) and on IEC 61360 data specifications and concept descriptions (AASc-3a-002, 004, 005, 006, 007, 008, 009, 010) are each reported if and only if violated, for every category, data type, language set and combination of optional attributes, in every entry of the list of data specifications. An unexpected or deprecated data specification reference yields a warning and never an error.",
  ["inputs"], "every combination of category, data type, unit, value, value list, names, definitions and number of data specifications",
  "The combinations (4 categories x 19 data types x optional attributes x list positions) are not sampled by any test.",
  [V + "model.py"], ["DataSpecificationIec61360.check_*", "ConceptDescription.check_*", "EmbeddedDataSpecification.check_reference", "AdministrativeInformation.check_constraint_aasd_005"])
p("C06", "Typed values are accepted exactly if in the type's lexical space",
  "The value of a property, qualifier or extension and both bounds of a range are accepted if and only if they belong to the lexical space and value range of their declared XML Schema type, for all 30 types (integers with bounds, decimals, floats, dates and times with calendar and time zone rules, durations, binary, URI, boolean, string). A rejected value is reported as an error on the element that carries it.",
  ["inputs"], "all strings for each of the 30 value types",
  "Lexical spaces are infinite and the tests probe some literals per type; boundary values, foreign digits, underscores, line ends and calendar corner cases are not reached.",
  [F + "data_types.py", V + "model.py"], ["validators maps each type to its predicate", "validate() called from check_value_type*"])
p("C07", "XML and JSON agree; XML deviations are rejected",
  "A document and its XML rendering always get the same findings at the same locations. An XML document that deviates from that rendering by a foreign or missing namespace, stray text, a repeated child element, a child element inside a text value, a malformed boolean or a wrong number of wrapped children is always reported as an error.",
  ["inputs"], "every document expressible in both formats, and every such deviation at every element",
  "Tests compare a few fixed files; agreement is a relation over all documents and all positions of a deviation.",
  [V + "adapter.py", F + "file.py"], ["XmlAdapter and JsonAdapter present both formats to one parser", "check_xml_file"])
p("C08", "Package check reaches and judges exactly the reachable parts",
  "Checking an AASX package always terminates, whatever the relationship graph, and reports an error if the content-type part or the root relationships are missing or malformed, a relationship is incomplete, or a reachable relationship target is missing. Otherwise every specification reachable from an origin is checked as XML or JSON by its extension and its errors decide the verdict; an origin count other than one, an origin without specification, a deprecated relationship type and an unknown file extension yield warnings.",
  ["inputs"], "all finite relationship graphs, cyclic and shared ones included, path spellings and part contents",
  "Tests build a few acyclic packages; termination and coverage are statements over all graphs.",
  [F + "opc.py", F + "file.py"], ["_scan_relationships walks relationships with a visited set", "normpath/splitpath resolve targets", "_check_files runs the document checks"])
p("C09", "Supported submodel templates are enforced exactly",
  "A submodel declaring the ContactInformations or Nameplate semantic id is accepted if and only if each template field, recognised by its semantic id at the right level, occurs within its cardinality with the right element class, value type and enumeration literal, and the template's own rules hold. Elements with other semantic ids and submodels with other semantic ids never cause an error.",
  ["inputs"], "every submodel content under each supported template, nested collections included",
  "Each template has dozens of fields with cardinalities and types; tests cover some fields once.",
  [V + "submodel_templates.py", V + "parse_submodel.py"], ["_parse_elements groups elements by semantic id and checks cardinalities", "templates registry"])
p("C10", "A violation is found at any depth, position and in any company",
  "Placing an element or document fragment deeper, at another index, in a longer list, or next to other valid content never hides its findings, adds new ones, or changes anything but their location; and two independent violations of the same phase are both reported.",
  ["inputs"], "all fragments, embedding contexts, indices, list lengths and pairs of violations",
  "A relation between documents of unbounded size and depth, while tests look at single small documents.",
  [V + "parse.py", V + "model.py"], ["parse and check_constraints recurse over all fields and list items"])
p("C11", "Every input gets a verdict; malformed input is an error",
  "Checking any byte sequence as JSON, XML or AASX, or any JSON value or XML tree as any metamodel class, returns a result and never raises. Input that cannot be decoded or parsed is reported as an error.",
  ["inputs"], "all byte strings, JSON values and XML trees, damaged archives included",
  "Robustness against arbitrary input is a universal statement; tests feed well-formed or simply broken input.",
  [F + "file.py", F + "opc.py", V + "adapter.py", V + "parse_submodel.py"], ["exceptions of decoders are converted to results", "adapters reject wrong kinds of value"])
p("C12", "Verdicts depend on the input only",
  "Checking the same input again, before, after or during any other checks in the same process (in other threads), in any order of object attributes, and via file or via parsed data, gives the same findings; the given data is left unmodified.",
  ["histories", "schedules", "inputs"], "all histories and interleavings of checks in one process and all attribute orders",
  "Requires relating runs in arbitrary histories; each test looks at one check.",
  [V + "parse.py", V + "adapter.py", F + "file.py", F + "result.py", F + "reflect.py"], ["no global state is written by a check", "attributes are looked up by name"])
p("C13", "Severity aggregates and every rendering tells the same tree",
  "A result that was built bottom up has the maximum severity of itself and everything below it and is ok exactly if nothing in it is an error or critical. Its text, HTML and JSON renderings show every message exactly once, in order, at its nesting and severity, with markup escaped in HTML, and reading the JSON back restores the same tree.",
  ["inputs"], "all finite result trees with any messages and severities",
  "Tests build two or three small trees; the statement quantifies over all trees, shapes and message texts.",
  [F + "result.py"], ["AasTestResult.append, ok, to_lines, to_dict, from_json, to_html"])
p("C14", "Nested result scopes record every outcome exactly once, in order",
  "For every nesting of scopes, every sequence of written messages and any abort or foreign error at any point, each completed, aborted or guarded scope appears exactly once under its enclosing scope, after everything recorded before it, with what it contained; aborts end only the innermost scope, foreign errors pass through unguarded scopes and become a critical entry in the innermost guarded one. After any such history the scope stack is as before it, and writing outside all scopes is refused.",
  ["histories", "fault_sequences"], "all well-nested histories of enter, write, abort, raise and leave",
  "Histories interleave nesting and failures arbitrarily; tests run three fixed ones.",
  [F + "result.py"], ["ContextManager.__enter__/__exit__ on the managers stack", "write, start, abort"])
p("C15", "Command line: exit status and output follow the verdict",
  "The command line exits with status 0 exactly if the check's result is ok and non-zero otherwise (unknown commands, formats, versions and unknown or ambiguous suites included), for every input format, output format, model type and option combination. What it prints is the chosen rendering of the same result the library returns; for servers, suite substring, filter, dry run, headers, path prefix and certificate option take effect.",
  ["inputs", "configurations"], "all command lines over the documented commands and options, and inputs of each verdict",
  "Tests run a handful of fixed command lines; formats, outputs, options and verdicts multiply.",
  [F + "__main__.py"], ["run_file_test, run_api_test, main"])
p("C16", "Operation filters select exactly what the pattern says",
  "A filter 'includes~excludes' with colon-separated shell-style patterns selects an operation exactly if it matches an include (or there are none) and no exclude; matching is case sensitive and covers the whole name, blank patterns are ignored, and a second '~' is refused.",
  ["inputs"], "all filter strings and operation names",
  "All pattern strings against all names; tests list a dozen pairs.",
  [F + "config.py"], ["TestCaseFilter.__init__ and selects"])
p("C17", "A run covers exactly the selected operations of the profile",
  "For each of the four profiles and every filter, a run reports exactly the selected operations of that profile, in the profile's order, each once per listed occurrence, and sends requests for no others. A dry run sends nothing and still lists them; an unreachable server stops the run with a critical result and no further requests; unknown profiles and versions are refused.",
  ["configurations", "inputs"], "all profiles, filters, dry or not, reachable or not",
  "Tests run one profile list against one server with a few filters; the product of configurations is not covered.",
  [V + "api.py", F + "api.py", F + "config.py"], ["available_suites tables", "execute_tests loop", "_check_server"])
p("C18", "Negative tests: each bad argument is tried and must be refused",
  "For every operation and each of its arguments that has an invalid form (negative limit, broken base64 identifier, unknown enumeration literal, malformed boolean), a run sends a request with just that argument invalid. The test passes if and only if the response is a client error (400 to 499) with a well-formed error result; success, redirection, server errors and malformed bodies fail it.",
  ["inputs", "fault_sequences"], "all operations, arguments and server responses",
  "The existing server tests use a handful of responses; all status codes, bodies and combinations are not reached.",
  [V + "generate.py", V + "interfaces/shared.py", V + "interfaces/aas.py", V + "interfaces/submodel.py", V + "interfaces/submodel_repo.py", V + "interfaces/aas_repo.py", V + "interfaces/serialization.py"],
  ["generate_calls and generate_invalid_values", "invoke_and_decode with the 4xx range"])
p("C19", "Positive tests judge each response by status, content and identity",
  "A positive test of an operation with a typed JSON response passes exactly if the response status is 200, the body conforms to the operation's response type including the metamodel constraints, and it fits the request (the requested identifier, the page size, a non-empty or empty list where the filter demands it). Any server error is critical, any other deviation an error, and page requests after the first carry the cursor the server returned.",
  ["inputs", "fault_sequences"], "all operations of all profiles and all server responses",
  "Whether a defective server can slip through is a statement over all response behaviours; tests use one well-behaved server and one that always fails.",
  [V + "interfaces/shared.py", V + "interfaces/aas.py", V + "interfaces/submodel.py", V + "interfaces/submodel_repo.py", V + "interfaces/aas_repo.py", V + "interfaces/serialization.py", V + "interfaces/description.py"],
  ["invoke_and_decode, extract_json, _assert", "PaginationTests"])
p("C20", "Server faults stay local and the tally counts what was run",
  "Whatever a server answers or fails to answer at any request, a run ends with a result, every other selected operation is still tested, and the overall result is not ok if any test was. The tally reports, over all operations whose setup succeeded, exactly how many negative and positive tests passed and failed, and the summary shows the same numbers.",
  ["fault_sequences", "schedules"], "all assignments of faults (error status, garbage, empty lists, dropped connection) to requests",
  "Faults at each of hundreds of requests and their combinations; the tests use uniformly good or uniformly bad servers.",
  [V + "api.py", F + "result.py", V + "interfaces/shared.py"], ["execute_tests, _execute, ConfusionMatrix"])
p("C21", "Requests on the wire carry the right URL, headers and identifiers",
  "Every request goes to the configured server with the operation's path below the profile's prefixes, the configured path prefix removed only where it matches whole path segments, all given query parameters URL-encoded, absent ones omitted, identifiers in unpadded URL-safe base64, and every configured additional header besides the request's own, with the request's method and JSON body. A trailing slash of the server address makes no difference, and no client or request changes what another one sends, not even at the same time in another thread.",
  ["inputs", "configurations", "schedules"], "all identifiers, hosts, prefixes, header sets, query values and interleavings of sends",
  "Tests look at one URL per feature; encodings and prefix corner cases range over all strings.",
  [F + "http.py", F + "data_types.py", V + "interfaces/shared.py"], ["Request.make_url, HttpClient.descend/send", "base64_urlsafe"])
p("C22", "Findings name the location of the offending object",
  "Every structural or constraint finding names the path from the document root to the offending object or value, with attribute names (up to case and underscores) and zero-based list indices; a missing or unknown attribute is named and located at its object. Two findings on different objects never share a location.",
  ["inputs"], "all documents and all positions of an offending object",
  "A location is a function of the document's shape; tests check only that something was reported.",
  [V + "adapter.py", V + "parse.py"], ["AdapterPath is extended per attribute and index"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
