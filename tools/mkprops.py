"""writes properties.jsonl (one place to edit the statements)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], state=state or [], hook_needed=None)))


p('C01', 'Numeric limits are enforced exactly',
  'Converting a number (or numeric text) under an integer or number definition raises a validation error exactly when the value violates that definition\'s maximum, minimum (each inclusive or exclusive as declared) or, for integers, multipleOf; otherwise it yields the same number. This holds for every limit value, zero and negative ones included, and for both integer and floating point values.',
  ['inputs', 'configurations'], 'every value and every combination of limits (also limits equal to 0, to the value, or far beyond 32/64 bit)',
  'Tests try a handful of values per keyword; off-by-one at a limit, falsy limits and interactions of two limits need all pairs value/limit.',
  ['pyswagger/primitives/comm.py', 'pyswagger/primitives/_int.py', 'pyswagger/primitives/_float.py'],
  [('min_max', 'pyswagger/primitives/comm.py'), ('validate_int/create_int', 'pyswagger/primitives/_int.py'), ('validate_float/create_float', 'pyswagger/primitives/_float.py')],
  ['Primitive.produce', 'obj._prim_'])

p('C02', 'String length and enum limits are enforced exactly',
  'Converting a value under a string definition raises a validation error exactly when its text is longer than maxLength, shorter than minLength, or not one of the enum values; otherwise the text is returned unchanged. A limit of 0 is a limit like any other.',
  ['inputs', 'configurations'], 'every text (any Unicode, up to the bound), every maxLength/minLength, every enum list',
  'Tests use two or three ASCII strings; falsy limits, boundary lengths and characters outside ASCII are not reached.',
  ['pyswagger/primitives/_str.py'],
  [('validate_str/create_str', 'pyswagger/primitives/_str.py')], ['Primitive.produce'])

p('C03', 'Array conversion keeps order and enforces array limits',
  'Converting a sequence under an array definition yields the item-wise conversions in the original order and loses or invents no item; an item that its own definition rejects makes the whole conversion fail. With uniqueItems, later duplicates are dropped (first occurrences keep their order). It raises a validation error exactly when the resulting number of items exceeds maxItems or falls below minItems; a limit of 0 is a limit like any other.',
  ['inputs', 'configurations'], 'every list up to the length bound, of integers or strings, nested arrays, every maxItems/minItems/uniqueItems; definitions that declare items',
  'Each limit is tested once with one list; limits of 0, duplicates by value at any position and nested definitions are not covered.',
  ['pyswagger/primitives/_array.py'],
  [('Array.apply_with', 'pyswagger/primitives/_array.py')], ['Primitive.produce'])

p('C04', 'Array parameters survive their wire format',
  'A non-empty array argument sent as csv, ssv, tsv or pipes is one text from which splitting at that separator gives back exactly the texts of the items, in order, empty items included (when no item contains the separator); converting that text by the same definition gives back an equal array. With collectionFormat multi every item is sent as its own name/value pair, in order, in a query or form; nothing is merged or dropped.',
  ['inputs', 'configurations'], 'every list of items up to the bound, all five collection formats, parameters in path, query, header, formData',
  'Tests use ["a","b","c"]-like lists; empty and leading-empty items, one-item and zero-item lists are where joining code breaks.',
  ['pyswagger/primitives/_array.py', 'pyswagger/spec/v2_0/objects.py'],
  [('Array.__str__/to_url', 'pyswagger/primitives/_array.py'), ('Operation.__call__', 'pyswagger/spec/v2_0/objects.py')], ['Request.query', 'Request.path', 'Request.header'])

p('C05', 'Object conversion obeys properties, required and additionalProperties',
  'Converting a mapping under an object definition converts each declared property by its own definition, fills declared defaults of absent ones, and raises when a required property is absent or a property\'s value is rejected. Undeclared keys are kept only as additionalProperties allows: dropped or rejected when it does not allow them, converted by its schema when it is one; no key is lost otherwise, and the caller\'s mapping is not changed. In write context a readOnly property is rejected, at any depth.',
  ['inputs', 'configurations'], 'every subset of present/absent keys with symbolic values, required lists, defaults, additionalProperties absent/true/false/schema, nested objects',
  'Key presence is a power set and interacts with defaults and required; tests show a few fixed documents.',
  ['pyswagger/primitives/_model.py'],
  [('Model.apply_with/cleanup', 'pyswagger/primitives/_model.py')], ['Primitive.produce'])

p('C06', 'allOf enforces every member schema',
  'A value converted under an allOf composition is accepted only if it satisfies the constraints of every member and of the enclosing schema, independent of the order of the members, and the result carries all properties declared by any of them. This also holds for falsy values such as 0 and "", and through $ref members and nested allOf.',
  ['inputs', 'configurations'], 'values, member orders, symbolic limits in two or three members, objects and scalars (arrays, and one property declared by several members, are left out)',
  'Tests cover one object composition and two scalar ones; order of members and falsy values decide different branches.',
  ['pyswagger/primitives/__init__.py', 'pyswagger/primitives/_model.py'],
  [('Primitive.produce', 'pyswagger/primitives/__init__.py')], ['Primitive.produce'])

p('C07', 'Dates and times convert losslessly',
  'A date or date-time text in RFC 3339 form (with any UTC offset, or Z, with or without a fraction) is converted to the calendar value it denotes, and the text produced from that value denotes the same instant; texts that name impossible days, times or offsets, or are not of that form, are rejected with an error. date objects, datetime objects and timestamps given as float give the corresponding value.',
  ['inputs'], 'every date of years 1..9999, every time of day, offsets -23:59..+23:59, malformed digits',
  'The tests contain about a dozen fixed texts; leap days, negative offsets, offsets with minutes and fractions are combinatorial.',
  ['pyswagger/primitives/_time.py', 'pyswagger/utils.py'],
  [('Date/Datetime', 'pyswagger/primitives/_time.py'), ('from_iso8601', 'pyswagger/utils.py')], ['Primitive.produce', 'to_json'])

p('C08', 'byte, binary and uuid values keep their content',
  'A byte or binary value given as bytes or text (meaning its UTF-8 form) has a JSON form that is URL-safe base64 text decoding to exactly the given content, for every content. A uuid given as a UUID object, 16 bytes or any textual form denotes the same 128 bits before and after conversion, is sent in canonical form, and input that is not a uuid is rejected.',
  ['inputs'], 'every byte string up to the bound; all 2^128 uuids; malformed texts',
  'Tests use one literal each.',
  ['pyswagger/primitives/_byte.py', 'pyswagger/primitives/_uuid.py'],
  [('Byte', 'pyswagger/primitives/_byte.py'), ('UUID', 'pyswagger/primitives/_uuid.py')], ['Primitive.produce', 'str', 'to_json'])

p('C09', 'Every argument reaches exactly one place of the request',
  'Calling an operation puts each supplied argument in exactly the place (path, query, header, form, body, file) its parameter declares, under its declared name and with its wire text, and nothing else is sent; an absent optional argument is sent only if it declares a default. An unknown argument name, or an absent required one without default, is rejected. (Parameter names are distinct; an argument explicitly given as None is left out of the claim.)',
  ['inputs', 'configurations'], 'every subset of supplied arguments, every assignment of parameter locations, symbolic values and defaults',
  'Tests call fixed operations; the power set of presence x location x required x default is out of reach.',
  ['pyswagger/spec/v2_0/objects.py', 'pyswagger/io.py'],
  [('Operation.__call__', 'pyswagger/spec/v2_0/objects.py'), ('Request.prepare', 'pyswagger/io.py')], ['Request.path', 'Request.query', 'Request.header', 'Request.data', 'Request.files'])

p('C10', 'Path arguments are encoded so that they come back',
  'The path of a prepared request is the template with each {name} replaced by the percent-encoded text of that argument: splitting the path at "/" gives as many segments as the template, and percent-decoding the segment gives back the argument\'s text exactly, for every text. The URL contains the same path.',
  ['inputs'], 'every Unicode text up to the bound as path argument, including "/", "?", "#", "%", "+", space, braces',
  'Tests use simple identifiers and one special case; reserved characters and spaces break URLs silently.',
  ['pyswagger/io.py'],
  [('Request.prepare', 'pyswagger/io.py')], ['Request.path', 'Request.url'])

p('C11', 'Content negotiation stays within consumes and produces',
  'The Content-Type chosen for a body, form or file request and the Accept header are always members of the effective consumes and produces of the operation: for a body and for Accept the caller\'s explicit choice, otherwise the first member (when the list is empty: the choice as it is, otherwise application/json for a body and no Accept header); for forms application/x-www-form-urlencoded, and multipart/form-data when a file is sent. A choice outside of a non-empty list, or a form the list does not allow, raises and nothing is sent.',
  ['inputs', 'configurations'], 'every consumes/produces list up to the bound, every explicit choice, every kind of payload',
  'Tests check single fixed lists.',
  ['pyswagger/io.py'],
  [('Request._prepare_body/_prepare_forms/_prepare_files/prepare', 'pyswagger/io.py')], ['Request.header'])

p('C12', 'Form and multipart bodies decode to what was given',
  'Decoding the url-encoded body of a prepared form request gives exactly the supplied name/value pairs in order. Decoding a multipart body by RFC 7578 at the boundary named in its Content-Type gives exactly the form fields and the files with their names, file names, declared part headers and contents, each once (quotes and line breaks in names percent-encoded, as HTML does; part headers are Content-Type and Content-Transfer-Encoding).',
  ['inputs', 'configurations'], 'every form value and file content up to the bound, lists of files, any non-colliding boundary',
  'Tests compare one or two fixed bodies; values with "&", "=", "+", line breaks and non-ASCII text need an all-values argument.',
  ['pyswagger/io.py', 'pyswagger/primitives/_file.py'],
  [('Request._prepare_files/_prepare_forms', 'pyswagger/io.py')], ['Request.data'])

p('C13', 'Requests do not leak into each other or into the caller\'s data',
  'Preparing, resetting and re-preparing a request, or building further requests of the same operation, gives the same result as doing it once with a fresh operation: no header, query, body or URL of one request appears in another. Arguments, option and header mappings passed in by the caller, and the API description itself, keep their values. (Left out: a stream given as file is read to its end by the first preparation; repeating needs a rewound or named file.)',
  ['histories', 'inputs'], 'every sequence of up to four operations (call, prepare with a scheme, patch, reset, authorise, compose headers) with symbolic arguments',
  'Leaks need a second request after a first; tests build one request per test.',
  ['pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/spec/v2_0/objects.py'],
  [('Request.reset/prepare', 'pyswagger/io.py'), ('BaseClient.compose_headers', 'pyswagger/core.py')], ['Request.*'])

p('C14', 'URL options and scheme selection change only what they name',
  'Patching a request\'s URL scheme or host changes exactly that component, before or after preparation, and leaves path, query and the other component as they were. The scheme of a prepared request is one both the client and the operation support (the preferred one if given), and a request with no common scheme is refused.',
  ['inputs', 'configurations'], 'symbolic hosts, base paths, path arguments; every subset of client and operation schemes and preference; patch before/after prepare',
  'Tests patch one URL in two orders.',
  ['pyswagger/io.py', 'pyswagger/core.py'],
  [('Request._patch/prepare', 'pyswagger/io.py'), ('BaseClient.prepare_schemes', 'pyswagger/core.py')], ['Request.url'])

p('C15', 'Credentials go exactly where the security scheme says',
  'Authorising a request adds, for every requirement of the operation for which credentials were given, exactly that credential at its declared place (basic: Authorization header with base64 of user:password; apiKey: its header or query name; oauth2: access token header) replacing an earlier value of the same name, and adds nothing else. Requests of operations without security requirements are not touched, and unknown scheme names are refused.',
  ['inputs', 'configurations'], 'symbolic user names, passwords, tokens and key names; every subset of requirements and of known credentials',
  'Tests use fixed credentials; encoding of arbitrary passwords and replacement of existing query values are not covered.',
  ['pyswagger/core.py', 'pyswagger/utils.py'],
  [('Security.update_with/__call__', 'pyswagger/core.py'), ('nv_tuple_list_replace', 'pyswagger/utils.py')], ['Request.header', 'Request.query'])

p('C16', 'Composed headers contain every given header',
  'Composing request and custom headers yields every header of both sources: as a list with all pairs; joined, one pair per name whose value is the comma-joined list of all values in order; as a dict, one value per name. The caller\'s headers and options and the request\'s own headers are not modified.',
  ['inputs', 'configurations'], 'symbolic header names and values (names may coincide), list or dict input, with and without joining',
  'Tests use disjoint fixed names in each mode.',
  ['pyswagger/core.py'],
  [('BaseClient.compose_headers', 'pyswagger/core.py')], ['return value'])

p('C17', 'Responses are decoded by the definition of their status',
  'Applying a response uses the definition for exactly its status code, else "default", else none: the body is decoded by the codec of its Content-Type and converted by that definition\'s schema, and headers by their declared types, with repeated headers kept in order and names matched case-insensitively. The raw body is kept unchanged, and after a reset nothing of the earlier response remains.',
  ['inputs', 'configurations', 'histories'], 'every status code, every subset of declared responses, symbolic header names/values and body values',
  'Tests apply a few fixed responses.',
  ['pyswagger/io.py'],
  [('Response.apply_with/_convert_header', 'pyswagger/io.py')], ['Response.data', 'Response.header', 'Response.raw'])

p('C18', 'Case-insensitive headers behave as one mapping',
  'The header mapping finds an entry under any capitalisation of its name, keeps one entry per case-folded name holding the last value set and the last spelling used, and length, iteration, membership, deletion and update are consistent with that.',
  ['inputs', 'histories'], 'every sequence of up to four set/delete/update operations with symbolic names and values',
  'Tests do a handful of concrete operations.',
  ['pyswagger/utils.py'],
  [('CaseInsensitiveDict', 'pyswagger/utils.py')], ['mapping interface'])

p('C19', 'JSON pointers round trip and resolve exactly',
  'Composing tokens into a JSON pointer and splitting it gives the tokens back, for every token including "~", "/" and digits, and a JSON reference splits into URL and pointer and is joined back without change. Resolving the pointer of any object of a loaded document yields exactly that object.',
  ['inputs'], 'every list of up to three tokens of any text up to the bound',
  'Tests use fixed tokens; escape order mistakes show only on "~1"-like texts.',
  ['pyswagger/utils.py', 'pyswagger/spec/base.py', 'pyswagger/core.py'],
  [('jp_compose/jp_split/jr_split', 'pyswagger/utils.py'), ('BaseObj.resolve', 'pyswagger/spec/base.py'), ('App.resolve', 'pyswagger/core.py')], ['App.resolve'])

p('C20', 'References are normalised like RFC 3986 relative URLs',
  'A $ref in a document loaded from some URL is normalised to the absolute reference that RFC 3986 resolution against that URL gives (with the fragment as the pointer), so the same target always has the same reference; a reference that is already absolute is kept. Fragment-only references stay in the same document. (Left out: segments of three or more dots, references to a folder, and base URLs with a query.)',
  ['inputs', 'configurations'], 'symbolic relative paths including "..", ".", root-absolute ones, and base URLs (http and file)',
  'Tests list ten combinations.',
  ['pyswagger/utils.py', 'pyswagger/scanner/v2_0/norm_ref.py'],
  [('normalize_jr/path2url/normalize_url', 'pyswagger/utils.py')], ['normalize_jr', 'Schema.norm_ref'])

p('C21', 'Each document is loaded once and references reach their target',
  'Resolving references, local or into other documents, yields the object the target document holds at that pointer, whichever order, entry point and mix of whole-document and sub-document references is used. Every document is fetched at most once per resolver, also when references are circular, and a reference to something that does not exist raises. (Recorded finding: list indexes like -1 or 00 are taken as Python does.)',
  ['configurations', 'histories'], 'reference graphs over up to three documents chosen by symbolic edges, every resolution order',
  'Tests use a few fixed multi-file layouts.',
  ['pyswagger/resolve.py', 'pyswagger/core.py', 'pyswagger/scanner/v2_0/resolve.py'],
  [('Resolver.resolve', 'pyswagger/resolve.py'), ('App.resolve/prepare_obj', 'pyswagger/core.py'), ('Resolve scanner', 'pyswagger/scanner/v2_0/resolve.py')], ['App.resolve', 'getter calls'])

p('C22', 'Operation and model lookup finds the one that was asked for',
  'Looking up an operation by operationId, or by tag and operationId, returns the operation that declares them, for every declared tag. A key matches whole names only; when it matches none or several, the lookup raises instead of returning a wrong one, and a document that declares two operations under the same name is refused.',
  ['inputs', 'configurations'], 'symbolic operationIds, tags and keys that may be prefixes, suffixes or equal to each other',
  'Tests look up known ids in one document; near-miss keys need symbolic names.',
  ['pyswagger/utils.py', 'pyswagger/scanner/type_reducer.py'],
  [('ScopeDict', 'pyswagger/utils.py'), ('TypeReduce', 'pyswagger/scanner/type_reducer.py')], ['App.op', 'App.m'])

p('C23', 'Operations inherit exactly the declared document-level settings',
  'The effective parameters of an operation are its own plus those of its path item whose name it does not declare itself; its consumes, produces and security are its own if declared (also when declared empty), its schemes if not empty, else the document\'s; no operation is affected by the declarations of another one; and its URL and path are built from host, basePath and the path template.',
  ['configurations'], 'every combination of declared/undeclared/empty at each level, symbolic parameter names and locations',
  'Tests cover one override each; "declared empty" and name clashes across locations are not reached.',
  ['pyswagger/scanner/v2_0/patch_obj.py'],
  [('PatchObject', 'pyswagger/scanner/v2_0/patch_obj.py')], ['Operation.parameters', 'Operation.consumes', 'Operation.url'])

p('C24', 'Reference cycles are detected exactly and never hang',
  'Preparing a document in strict mode fails with a cycle error exactly when its schema references contain a cycle, and the reported cycles are real cycles of the reference graph; dereferencing, finalising or converting along references always terminates, raising instead of looping. Acyclic graphs are never rejected.',
  ['configurations'], 'every reference graph on up to four schemas (symbolic edges of any kind: $ref, properties, items, allOf, additionalProperties)',
  'Tests use a few fixed cycles; all small graphs are out of reach of examples.',
  ['pyswagger/utils.py', 'pyswagger/scanner/cycle_detector.py'],
  [('walk/deref/final/CycleGuard', 'pyswagger/utils.py'), ('CycleDetector', 'pyswagger/scanner/cycle_detector.py')], ['App.prepare', 'Primitive.produce'])

p('C25', 'Referenced parameters, responses and path items act as if inlined',
  'A parameter, response or path item given by $ref (directly or through a chain) behaves exactly as if its target had been written in its place: requests and responses are the same, and for path items the entries beside the $ref take precedence over the referenced ones. The referenced object itself is not changed.',
  ['configurations', 'inputs'], 'chains of up to three references, symbolic limits and values, all subsets of verbs present on both sides',
  'Tests check single references in fixed documents.',
  ['pyswagger/scanner/v2_0/merge.py', 'pyswagger/utils.py', 'pyswagger/spec/base.py'],
  [('Merge scanner', 'pyswagger/scanner/v2_0/merge.py'), ('final', 'pyswagger/utils.py'), ('BaseObj.merge', 'pyswagger/spec/base.py')], ['Operation()', 'Response.apply_with'])

p('C26', 'Loading and dumping a document loses and invents nothing',
  'Dumping a loaded 2.0 document gives a document that is equivalent to the loaded one: every field the specification defines is there with its value (default values may be left out), and nothing is added; loading the dump and dumping again gives the same result. This holds for every field value, including falsy ones. (Recorded findings: null within values, empty lists and objects, and null defaults or examples are not dumped faithfully.)',
  ['inputs', 'configurations'], 'every presence/absence and symbolic values of the fields of each object type',
  'Tests dump a few fixed documents.',
  ['pyswagger/spec/base.py', 'pyswagger/spec/v2_0/objects.py', 'pyswagger/spec/v2_0/parser.py'],
  [('BaseObj.dump', 'pyswagger/spec/base.py'), ('Context.parse', 'pyswagger/spec/base.py')], ['App.dump', 'obj.dump'])

p('C27', 'Upgraded Swagger 1.2 descriptions keep their meaning',
  'Converting a 1.2 description to 2.0 keeps every operation reachable under its path, method and nickname, with each parameter\'s name, location, type, format, limits, default, enum and required flag, its response model, consumes/produces, models with their properties and inheritance, and authorisations mapped to the corresponding 2.0 constructs. Numeric limits keep their value exactly. (All resources share one host and scheme; responseMessages are not converted; an empty consumes or produces list counts as not declared. Two recorded findings: the flow name access_code, and an operation clearing the authorizations of its resource.)',
  ['inputs', 'configurations'], 'symbolic limits, flags, defaults, and presence of each field of parameters, models and authorisations',
  'The sample documents exercise one value per field.',
  ['pyswagger/scanner/v1_2/upgrade.py'],
  [('Upgrade', 'pyswagger/scanner/v1_2/upgrade.py')], ['App.root after load of 1.2'])

p('C28', 'The renderer only generates acceptable values',
  'Every value the renderer generates for a schema or parameter satisfies that definition: type, enum, minimum/maximum with exclusiveness, multipleOf, string length, array size and uniqueness, required properties and property counts; generating all parameters of an operation yields arguments that the operation accepts. This holds for every outcome of the random source and every definition that some value satisfies, pattern, enumerations of objects or arrays, typeless and recursive schemas, and multipleOf that is no binary fraction left aside.',
  ['inputs', 'configurations'], 'symbolic limits and every possible outcome of the random generator',
  'Tests sample a few random runs for fixed limits.',
  ['pyswagger/primitives/render.py'],
  [('Renderer', 'pyswagger/primitives/render.py')], ['Renderer.render', 'Renderer.render_all'])

p('C29', 'MIME codecs are chosen by media type only',
  'Bodies are encoded and decoded by the codec registered for their media type, ignoring media type parameters; a JSON body decodes to an equal value, and an unregistered media type is refused instead of guessed. Registering a codec for one media type affects no other, nor other registries.',
  ['inputs', 'histories'], 'symbolic media types and parameters, JSON values up to the bound, registrations',
  'Tests cover plain json and text.',
  ['pyswagger/primitives/codec.py'],
  [('MimeCodec', 'pyswagger/primitives/codec.py')], ['marshal', 'unmarshal'])

p('C30', 'Comparing descriptions tells equal from different',
  'Comparing two descriptions reports "same" exactly when all fields defined by the specification are equal, recursively, and otherwise a path at which they do differ; it is reflexive, symmetric in its verdict and never raises. (One recorded finding: lists of different lengths.)',
  ['inputs', 'configurations'], 'pairs of objects with symbolic fields, lists of different lengths, maps with different keys',
  'Tests compare objects with equal shapes.',
  ['pyswagger/spec/base.py'],
  [('BaseObj.compare', 'pyswagger/spec/base.py')], ['compare'])

p('C31', 'Local files are located exactly where the given path says',
  'Loading from a local path or file URL opens the named file if the path names one with a known extension, else the predefined description file in that directory, else the path with a known extension added, and nothing else, whatever characters the path contains; related resources of a 1.2 description and files given by relative references are opened beside it. If none of them exists, it raises instead of opening something else.',
  ['inputs', 'configurations'], 'symbolic path segments and extensions, every set of existing files',
  'Tests use the paths of the test data only.',
  ['pyswagger/getter.py', 'pyswagger/utils.py'],
  [('LocalGetter', 'pyswagger/getter.py'), ('patch_path', 'pyswagger/utils.py')], ['open'])

p('C32', 'Invalid descriptions are reported, valid ones are not',
  'Validation reports one error at the place of every violated rule, and no error for objects that violate none. The rules are, for 2.0: no required property is readOnly; for 1.2: a type or $ref; items exactly for arrays; uniqueItems only for arrays; allowMultiple only for path, query and header parameters and not for arrays; body parameters are named "" or "body"; File parameters are form parameters of operations consuming multipart/form-data (by themselves or their API declaration); void only for operations; apiKey has passAs and keyname, oauth2 has grant types, of which one is given; required authorizations are declared, with scopes only for oauth2; and the required fields that are no lists or maps are given. Strict validation and preparation raise ValidationError exactly when there is an error, and descriptions of unsupported versions are refused with NotImplementedError.',
  ['configurations'], 'every combination of presence/absence and kind of the checked fields on a symbolic object of each type',
  'Tests show one error each.',
  ['pyswagger/scanner/v2_0/validate.py', 'pyswagger/scanner/v1_2/validate.py', 'pyswagger/core.py'],
  [('Validate', 'pyswagger/scanner/v2_0/validate.py'), ('App.validate', 'pyswagger/core.py')], ['App.validate', 'App.prepare'])

p('C33', 'Descriptions in YAML and JSON are equivalent',
  'A description written in YAML loads to the same objects as the same description written in JSON: names are texts even if they look like numbers, booleans or null (response codes, properties, definitions, keys of examples), dates stay texts, quoted and plain values keep their value, block and flow style and JSON itself preceded by blanks, comments or a document start make no difference (a text whose first character is an opening brace is taken as JSON); responses are found and applied by their status code in either case.',
  ['inputs', 'configurations'], 'symbolic names, codes and values inside of YAML text, which PyYAML itself parses symbolically',
  'The YAML test uses one document with codes 200 to 500.',
  ['pyswagger/getter.py', 'pyswagger/scanner/v2_0/yaml.py'],
  [('_YamlLoader', 'pyswagger/getter.py'), ('YamlFixer', 'pyswagger/scanner/v2_0/yaml.py')], ['App.load', 'App.prepare'])

p('C34', 'Clients transmit exactly what was prepared',
  'Each client (requests, Flask test client, Tornado) gives its HTTP library exactly one request for a pair of request and response: the upper-case method, the URL, all query pairs, the composed headers including credentials and the headers given by the caller, and the body or the form fields and files (with their names, file names, media types and contents, read from the named file if no stream is given). The status, headers (repeated ones too) and body the library returns are applied to the response. Sending the same pair again sends the same and gives the same response, also after a sending failed (before, within or after the library), unless a stream given as file was read by the first sending. (Recorded finding: TornadoClient ignores the Content-Type of responses. Left out: webapp2, whose client refuses Python 3, and Content-Transfer-Encoding where the library encodes multipart bodies.)',
  ['inputs', 'configurations', 'histories'], 'symbolic arguments, files, headers and responses for each client, the HTTP library being a recording stand-in',
  'Tests use each client with a few ASCII requests and one file.',
  ['pyswagger/contrib/client/requests.py', 'pyswagger/contrib/client/flask.py', 'pyswagger/contrib/client/tornado.py', 'pyswagger/core.py'],
  [('Client', 'pyswagger/contrib/client/requests.py'), ('FlaskTestClient', 'pyswagger/contrib/client/flask.py'), ('TornadoClient', 'pyswagger/contrib/client/tornado.py'), ('BaseClient', 'pyswagger/core.py')],
  ['Client.request', 'FlaskTestClient.request', 'TornadoClient.request'])

p('C35', 'Conversions registered by the user are used exactly where they are declared',
  'A conversion registered for a type and format on the factory given to App.load is called exactly once for every value of a definition declaring that type and format - parameters in any location, items, headers, bodies, responses, properties, additionalProperties, allOf members, references, defaults - with the definition, the value as given and the direction, its result is the value sent or returned, and its second pass decides about acceptance. Values of other types and formats, and other factories, are converted as without it; a format that nobody registered is converted like the type without format, and a type that nobody registered is refused with ValueError. In Swagger 1.2 a registered type name is a primitive, any other one names a model.',
  ['inputs', 'configurations'], 'symbolic registered and declared formats and values, at every place of a description where a definition may stand',
  'The test registers one format and converts one value.',
  ['pyswagger/primitives/__init__.py', 'pyswagger/primitives/_model.py', 'pyswagger/primitives/_array.py', 'pyswagger/io.py', 'pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
  [('Primitive.register', 'pyswagger/primitives/__init__.py'), ('Primitive.get', 'pyswagger/primitives/__init__.py'), ('Primitive.produce', 'pyswagger/primitives/__init__.py')], ['Primitive.register', 'App.load', 'Primitive.produce'])

p('C36', 'Descriptions are fetched from where they are named and taken as they are',
  'Loading fetches exactly the given URL (once, closing the connection, also if it fails), resources of a 1.2 description from beside it and referenced documents from their URLs, local files for file URLs; a getter given by class or object, a callback of SimpleGetter, DictGetter in the order of its list, and the default getter of a resolver are asked instead where they are given. Text, bytes (UTF-8) and dicts are taken as they are; anything else, broken JSON, documents that are no description and unknown versions (NotImplementedError) are refused. A relative path is taken below the current folder; App.create gives the same prepared; the scheme of the URL is the scheme of a description without schemes. (Recorded finding: App.load of an empty URL with DictGetter for Swagger 1.2.)',
  ['inputs', 'configurations'], 'symbolic URLs, names, contents and failures, every combination of given and default getters',
  'Tests load the test data from local files and two fixed URLs.',
  ['pyswagger/getter.py', 'pyswagger/resolve.py', 'pyswagger/core.py', 'pyswagger/utils.py'],
  [('UrlGetter', 'pyswagger/getter.py'), ('DictGetter', 'pyswagger/getter.py'), ('Resolver.resolve', 'pyswagger/resolve.py'), ('App.load', 'pyswagger/core.py'), ('normalize_url', 'pyswagger/utils.py')], ['App.load', 'App.create', 'Resolver.resolve'])

p('C37', 'The order of the members of a description does not matter',
  'Writing the members of any object of a description (definitions, paths, shared parameters and responses, fields of operations, schemas and parameters, settings; resources and models of Swagger 1.2) or the documents it refers to in another order gives the same operations, references, limits, inherited settings and requests.',
  ['inputs', 'configurations'], 'every permutation of each object of a description that uses references, allOf, shared and inherited settings, with symbolic limits and arguments',
  'Test documents have one order each.',
  ['pyswagger/core.py', 'pyswagger/scan.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/scanner/v2_0/resolve.py', 'pyswagger/scanner/v2_0/patch_obj.py', 'pyswagger/scanner/v2_0/aggt.py', 'pyswagger/scanner/v1_2/upgrade.py'],
  [('App.prepare', 'pyswagger/core.py'), ('Scanner', 'pyswagger/scan.py'), ('Merge', 'pyswagger/scanner/v2_0/merge.py'), ('Upgrade', 'pyswagger/scanner/v1_2/upgrade.py')], ['App.load', 'App.prepare', 'Operation.__call__'])

p('C38', 'Apps stay apart from each other and from what they were loaded from',
  'Loading, preparing and using an App never changes the document given by the getter; Apps of the same or different documents, with one resolver or several, loaded, prepared and used in any order, behave as if each was alone, and credentials, conversions, codecs and separators given to one are not used by another; changing what was returned (requests, response data, produced values, dumps) changes neither the description nor later results.',
  ['inputs', 'configurations', 'histories'], 'symbolic limits and arguments, every order of loading, preparing and using two Apps',
  'Tests use one App at a time.',
  ['pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/primitives/__init__.py', 'pyswagger/primitives/_model.py', 'pyswagger/primitives/codec.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/io.py'],
  [('App', 'pyswagger/core.py'), ('Resolver', 'pyswagger/resolve.py'), ('Primitive', 'pyswagger/primitives/__init__.py'), ('MimeCodec', 'pyswagger/primitives/codec.py')], ['App.load', 'App.prepare', 'Operation.__call__', 'App.dump'])

p('C39', 'Converted objects behave as the data they were made from',
  'The objects that a schema makes (of responses, bodies, produced values) give every member by item and by attribute, and take members both ways. Two of them, or one and a dict, are equal exactly when all members are, members that are None counting as missing, whatever the order of the comparison; being different is the contrary; anything that is no dict is just different. Shallow and deep copies are equal objects of the same kind that can be changed without changing the original, and an object that was decoded can be given as an argument again.',
  ['inputs', 'configurations'], 'symbolic names and values of members on both sides, nested objects and lists, every kind of other value',
  'Tests compare a few fixed objects and never copy one.',
  ['pyswagger/primitives/_model.py', 'pyswagger/primitives/__init__.py', 'pyswagger/io.py'],
  [('Model', 'pyswagger/primitives/_model.py'), ('Primitive.produce', 'pyswagger/primitives/__init__.py')], ['Model.__eq__', 'Model.__getattr__', 'Response.data'])

p('C40', 'What was done with an App before does not change what it does',
  'Resolving references (of parts of the document, of other documents, of what is missing), validating, preparing (strict or not, also again, also after it was refused or after a document could not be read), dumping, comparing, looking up, calling (also with refused arguments) and rendering, in any order, before or after preparing, leave operations, requests, responses, conversions, validation errors and dumps of an App those of an App that was just loaded and prepared; a description that is refused is refused each time. (Recorded finding: a document that could not be read leaves the object referring to it unresolved.)',
  ['histories', 'fault_sequences', 'inputs'], 'every pair of some twenty actions before and after preparing, documents unreadable at any attempts, symbolic limits and arguments',
  'Tests load, prepare and use an App once, and every document can be read.',
  ['pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/scanner/v2_0/resolve.py', 'pyswagger/scanner/v2_0/patch_obj.py', 'pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/scanner/v2_0/validate.py'],
  [('App', 'pyswagger/core.py'), ('Resolver', 'pyswagger/resolve.py'), ('Merge', 'pyswagger/scanner/v2_0/merge.py'), ('PatchObject', 'pyswagger/scanner/v2_0/patch_obj.py')], ['App.load', 'App.prepare', 'App.resolve', 'App.validate', 'App.dump'])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
