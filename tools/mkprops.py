"""Writes /verif/properties.jsonl (kept here as readable source)."""
import json
CL = 'progenitor-client/src/progenitor_client.rs'
IM = 'progenitor-impl/src/'
P = []


def p(id, title, st, text, why, files, mech, over=('inputs',), state=(), obs=(), hook=None):
    a = dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs:
        a['observe_at'] = list(obs)
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=text), why_tests_cant=why, anchors=a))


p('C01', 'A path parameter stays one path segment and decodes back to itself',
  'Encoding any string as a path parameter yields text made only of printable ASCII that contains no character able to delimit, restructure or terminate a URL path (slash, backslash, question mark, hash, space, quotes, angle brackets, backtick, braces, control characters; a percent sign only as the start of a two-hex-digit escape). Percent-decoding that text gives back exactly the original bytes. So a value placed between two slashes of a request path reaches the server as exactly one segment carrying exactly that value.',
  'every UTF-8 string of every length, including ones that already contain escapes, separators, control or non-ASCII characters',
  'quantifies over all strings; the one test encodes a single CIDR literal',
  [CL], [('encode_path', CL), ('PATH_SET', CL)], obs=['the return value of the path encoder', 'path_segments() of the request URL'])
p('C02', 'A scalar query parameter becomes exactly one pair name=value',
  'Serializing a query parameter whose value is a scalar (boolean, integer of any width, float, character, string) or a unit enum variant emits exactly one key/value pair: the key is the declared parameter name and the value is the scalar itself (for a unit variant, its serialized variant name). A present optional value is emitted exactly as the value it holds. The outcome of the underlying serializer, success or error, is returned unchanged.',
  'all parameter names, all values of every scalar type, any nesting of optionals, any underlying form serializer, including failing ones',
  'quantifies over all names, values and serializers; tests sample a handful of values with one serializer',
  [CL], [('QueryParam::serialize', CL), ('QuerySerializer scalar methods', CL)], obs=['the sequence of calls made on the underlying serializer', 'the URL query string'])
p('C03', 'An array query parameter repeats its name once per element, in order',
  'Serializing a query parameter whose value is a sequence emits one pair per element, in element order, each keyed by the declared parameter name and carrying that element unchanged; an empty sequence emits nothing. No element is dropped, duplicated, merged or renamed, and an error on any element or at the end of the sequence is returned to the caller.',
  'all sequence lengths and element values, all names, any underlying serializer including ones that fail part way',
  'quantifies over unbounded sequences and failure points; tests use three-element arrays with a serializer that does not fail',
  [CL], [('QuerySerializer::serialize_seq', CL), ('QuerySeq', CL)], obs=['the sequence of calls made on the underlying serializer'])
p('C04', 'Structured, newtype-variant and absent query values keep their own shape',
  'Serializing a query parameter whose value is a struct, map, tuple, struct or tuple variant, bytes, or newtype struct hands exactly that shape, with its own names, indexes and length, to the underlying serializer without adding the parameter name. A newtype variant is emitted as one field named by the variant. An absent optional and a unit value emit nothing of their own: the underlying serializer is told exactly none or unit.',
  'all values of these shapes, all parameter names, any underlying serializer',
  'quantifies over all shapes, names and serializers; tests sample one struct, one map and four enum layouts',
  [CL], [('QuerySerializer structured methods', CL)], obs=['the sequence of calls made on the underlying serializer'])
p('C05', 'Typed responses keep status, headers and value; failures keep the evidence',
  'When an expected response carries a body that decodes to the documented type, the caller gets exactly the decoded value together with the status and headers the server sent. When the body does not decode, the caller gets an error holding exactly the received body bytes and the decoder error; when the body cannot be read, the error holds the transport error. No other outcome is possible and nothing panics.',
  'all statuses, header maps, body byte strings, result types, and body-read failures',
  'quantifies over all responses, types and failures; no test decodes a response at all',
  [CL], [('ResponseValue::from_response', CL)], obs=['the returned value or error'])
p('C06', 'Upgrade only on status 101; otherwise the response is handed back',
  'A websocket-style operation yields an upgraded connection only if the server answered with status 101 and the upgrade succeeded, and then with the status and headers the server sent. For every other status the caller gets the unexpected response itself, unconsumed; if the upgrade of a 101 response fails, the caller gets the upgrade error.',
  'all statuses, header maps and upgrade outcomes',
  'quantifies over all statuses and outcomes; no test exercises upgrades',
  [CL], [('ResponseValue::upgrade', CL)], obs=['the returned value or error'])
p('C07', 'Stream and empty responses keep status and headers, stream untouched',
  'Wrapping a response as a byte stream or as an empty response keeps exactly its status and headers. The byte stream yields exactly the chunks and errors of the response body in order; wrapping, unwrapping and dereferencing a byte stream never replaces, reads or drops part of it.',
  'all responses, all body streams',
  'quantifies over all responses and streams; no test covers these wrappers',
  [CL], [('ResponseValue::stream', CL), ('ResponseValue::empty', CL), ('ByteStream', CL)], obs=['the wrapped value, status, headers and stream'])
p('C08', 'Accessors and mapping of a response never alter status, headers or value',
  'Constructing a response value from a value, status and headers and reading them back gives exactly those; unwrapping gives the value. Mapping a response applies the given function exactly once to the value, always succeeds, and leaves status and headers unchanged. Dereferencing, mutably or not, reaches the value and nothing else.',
  'all value types, values, statuses, header maps and mapping functions',
  'quantifies over all types and functions; no test covers them',
  [CL], [('ResponseValue::{new,into_inner,status,headers,map}', CL), ('Deref, DerefMut, AsRef for ResponseValue', CL)], obs=['accessor results'])
p('C09', 'Content length is the header value exactly when it is a valid number',
  'The content length of a response is the decimal value of its Content-Length header when that header is present, is visible text and is a decimal number that fits 64 bits. In every other case (absent, non-text, empty, negative, fractional, trailing or leading garbage, overflow) it is absent, and asking never panics.',
  'all header maps and header byte strings',
  'quantifies over all header values; no test covers it',
  [CL], [('ResponseValue::content_length', CL)], obs=['the returned option'])
p('C10', 'The status reported by an error is the status of the response it came from',
  'An error made from a documented error response or an unexpected response reports the status of that response; a transport, upgrade or body-read error reports the status of the underlying transport error if it has one. Request-validation errors, hook errors and payload-decoding errors report none.',
  'all error kinds and all error type parameters, statuses and transport errors',
  'quantifies over every kind and status; no test covers it',
  [CL], [('Error::status', CL)], obs=['the returned option'])
p('C11', 'Erasing the typed body of an error keeps its kind and everything else it carries',
  'Converting an error to its untyped form keeps the kind of the error and every datum it carries (message, transport error, body bytes, decoder error, response). For a documented error response only the typed body is dropped: status and headers are kept. Converting to untyped form does not change the status the error reports.',
  'all error kinds, payloads and error types',
  'quantifies over every kind and payload; no test covers it',
  [CL], [('Error::into_untyped', CL)], obs=['the converted error'])
p('C12', 'Transport and header errors get the right kind and stay reachable as source',
  'A transport error raised while sending becomes a communication error holding that very error, and an invalid header value becomes an invalid-request error holding its message. The error source of a communication, upgrade, body-read or payload-decoding error is exactly the underlying error; all other kinds have no source.',
  'all transport, header and decoder errors, all error kinds',
  'quantifies over every kind and payload; no test covers it',
  [CL], [('From<reqwest::Error>', CL), ('From<InvalidHeaderValue>', CL), ('std::error::Error::source', CL)], obs=['the converted error', 'source()'])
p('C13', 'Error text names kind and cause; alternate form adds the whole cause chain',
  'Displaying an error gives the label of its kind followed by the text of the datum it carries; a documented error response shows status, headers and value. The alternate display appends, in order and each exactly once, the text of every further error in the source chain after the direct cause; the plain display appends none of them. Debug output equals display output.',
  'all error kinds and payloads, source chains of any length, both display forms',
  'quantifies over unbounded source chains and all kinds; no test covers error text',
  [CL], [('Display for Error', CL), ('ErrorFormat::fmt_info', CL), ('Debug for Error', CL)], obs=['formatted text'])
p('C14', 'A form body is sent with the form content type and exactly the encoded fields',
  'Attaching a form body to a request sets the content type to application/x-www-form-urlencoded and sets the body to exactly the URL-encoded form of the value, changing nothing else of the request. If the value cannot be encoded the result is an invalid-request error and never a request.',
  'all serializable values, including those that fail to encode, and all requests under construction',
  'quantifies over all values; no test covers it',
  [CL], [('RequestBuilderExt::form_urlencoded', CL)], obs=['the resulting request or error'])
# generator
p('G01', 'Parsing a path template accepts exactly the well-formed paths and loses no text',
  'A path is accepted exactly when it starts with a slash, every closing brace closes an open one, every opened parameter is closed, and no parameter name contains a slash or an opening brace. On success the pieces, put back together in order, give the original path with runs of slashes in literal text collapsed to one; literal pieces contain no brace and parameter pieces are exactly the names between braces. Rejection is always reported as an invalid-path error, never a panic.',
  'all strings',
  'quantifies over all strings; tests sample about ten paths',
  [IM + 'template.rs'], [('parse', IM + 'template.rs')], obs=['the parsed template or error'])
p('G02', 'Printing a parsed path template and parsing it again is lossless',
  'Printing a template gives its literal text with each parameter name in braces, in order. For every template obtained by parsing, parsing the printed text succeeds and gives an equal template, and printing again gives the same text.',
  'all templates obtained from any accepted path',
  'quantifies over all templates; tests sample a few',
  [IM + 'template.rs'], [('to_string for PathTemplate', IM + 'template.rs'), ('parse', IM + 'template.rs')], obs=['printed text'])
p('G03', 'The parameter names of a path template are its parameters, in order',
  'The list of names of a template contains exactly the names of its parameters, in the order they occur in the path, duplicates included and literals excluded. It is the list that orders the path arguments of generated methods.',
  'all templates, any number of components',
  'quantifies over all templates; tests sample one',
  [IM + 'template.rs'], [('PathTemplate::names', IM + 'template.rs')], obs=['the returned list'])
p('G04', 'Mock path patterns keep literal text and replace each parameter by its wildcard',
  'The wildcard pattern for a template is anchored at both ends and is the concatenation, in order, of each literal unchanged and the any-text-but-slash pattern for each parameter. The single-parameter pattern is anchored, keeps each literal unchanged, and has a placeholder exactly at the occurrences of the requested parameter and a match-anything pattern at every other parameter.',
  'all templates and parameter names',
  'quantifies over all templates; one test samples one pattern',
  [IM + 'template.rs'], [('as_wildcard', IM + 'template.rs'), ('as_wildcard_param', IM + 'template.rs')], obs=['the returned pattern'])
p('G05', 'The generated URL format has one slot per argument and keeps literal text',
  'For every template the generated request URL is built with a format text consisting of one slot for the base URL followed by each literal piece unchanged and one slot per path parameter, with the encoded parameters supplied in path order. The number of slots always equals the number of arguments.',
  'all templates obtained by parsing, with any renaming of the parameters to identifiers',
  'quantifies over all templates; tests sample one',
  [IM + 'template.rs'], [('PathTemplate::compile', IM + 'template.rs')], obs=['the format text and argument list'])
p('G06', 'HTTP method names parse to the matching method and print back unchanged',
  'Exactly the eight lower-case OpenAPI method names parse, each to its own method; every other string is rejected with an error. Printing a method gives the name it parses from, so the request method used is the one documented.',
  'all strings and all methods',
  'quantifies over all strings; tests reach methods only through whole-document golden files',
  [IM + 'method.rs'], [('HttpMethod::from_str', IM + 'method.rs'), ('HttpMethod::as_str', IM + 'method.rs')], obs=['parse result', 'printed name'])
p('G07', 'Statuses are classified as success, error or neither exactly by HTTP class',
  'A documented response counts as success exactly when it is the default response, status 101, a status from 200 to 299, or the 2XX range; it counts as error exactly when it is the default response, a status from 400 to 599, or the 4XX or 5XX range. Responses sort by numeric status, with a range directly after the last status of its hundred and the default response after every status and range; that order is total and consistent, and no two different responses compare equal.',
  'all statuses below 1000, all ranges below 10, and the default',
  'quantifies over all statuses; golden files contain a handful',
  [IM + 'method.rs'], [('OperationResponseStatus', IM + 'method.rs')], obs=['classification results', 'sort order'])
p('G08', 'Parameters sort by kind, then path position or name, in a total order',
  'Any two parameters of an operation compare by kind first (path, then query, then header, then body), two path parameters by the position of their names in the path, two query or two header parameters by name. The comparison is antisymmetric and transitive, so the argument order of a generated method does not depend on the order of the document.',
  'all parameter lists with at most one body and whose path parameters occur in the path',
  'quantifies over all pairs and triples of parameters; golden files reach a few kinds and orders',
  [IM + 'method.rs'], [('sort_params', IM + 'method.rs')], obs=['the resulting order'])
p('G09', 'A helper identifier never collides with a parameter of the method',
  'Given a wanted name and any set of names already in use, the chosen identifier is not in the set and consists of the wanted name with zero or more underscores in front, as few as possible. The search always ends.',
  'all names and all finite sets of identifiers in use',
  'quantifies over all sets; no test covers collisions',
  [IM + 'util.rs'], [('unique_ident_from', IM + 'util.rs')], obs=['the returned identifier'])
p('G10', 'Sanitizing any document name gives a valid Rust identifier',
  'For every string used as a name in a document, the sanitized name is non-empty, starts with a valid identifier start character, is not a reserved word and parses as an identifier. The names +1 and -1 stay distinguishable.',
  'all strings, both letter cases',
  'quantifies over all Unicode strings; no test covers it directly',
  [IM + 'util.rs'], [('sanitize', IM + 'util.rs')], obs=['the returned name'])
p('G11', 'Each generation setting changes only itself and keeps the last value given',
  'Setting one generation option leaves every other option as it was and makes the option hold exactly the value given; list-like options keep earlier entries in order and add the new one at the end. Options can be set in any order with the same result. A generator built from the settings keeps all of them and hands every type option (derives, crates and their versions and renames, unknown-crate policy, patches, replacements, conversions, map type, builder style) to the type generator exactly as given.',
  'all settings states and all sequences of setter calls',
  'quantifies over all sequences of calls; golden tests use a few fixed combinations',
  [IM + 'lib.rs'], [('GenerationSettings setters', IM + 'lib.rs'), ('Generator::new', IM + 'lib.rs')], over=('inputs', 'histories'), obs=['the settings after the call'])
p('G12', 'Only OpenAPI 3.0.x documents pass version validation',
  'A document is accepted by version validation exactly when its version text, ignoring surrounding white space, starts with 3.0. followed by anything; every other text is rejected with an error naming the version.',
  'all version strings',
  'quantifies over all strings; tests sample five',
  [IM + 'lib.rs'], [('validate_openapi_spec_version', IM + 'lib.rs')], obs=['accept or reject'])
p('G13', 'Request content types are recognised exactly, ignoring media-type parameters',
  'A request content type is recognised exactly when the text before the first semicolon is application/octet-stream, application/json, application/x-www-form-urlencoded, text/plain or text/x-markdown, and it is treated as that kind; any other is rejected with an error. Printing a recognised type gives back the text before the semicolon.',
  'all strings',
  'quantifies over all strings; golden files contain a few types',
  [IM + 'method.rs'], [('BodyContentType::from_str', IM + 'method.rs'), ('Display for BodyContentType', IM + 'method.rs')], obs=['parse result', 'printed text'])
p('G14', 'A parameter is optional exactly when the document does not require it',
  'Path parameters and bodies are always required arguments; a query or header parameter is required exactly when the document marks it so (a query parameter whose type admits null counts as not required), and optional otherwise. Required and optional are complementary for every parameter.',
  'all parameter kinds and required flags',
  'quantifies over all kinds; golden files sample some',
  [IM + 'method.rs'], [('OperationParameterKind::is_required', IM + 'method.rs')], obs=['classification results'])
p('G15', 'Command-line body arguments and whole-body options combine consistently',
  'While the arguments of a generated command are collected, each argument keeps its first registration, the whole-body option can only become stricter as body arguments are added, and a command is left with an optional or required whole-body file argument exactly as its body properties demand.',
  'all sequences of argument registrations',
  'quantifies over all sequences; golden files sample some operations',
  [IM + 'cli.rs'], [('CliOperationArgs', IM + 'cli.rs')], over=('inputs', 'histories'), obs=['the collected arguments'])
p('G16', 'Schema conversion keeps types, bounds and nullability',
  'Converting a document schema to the internal schema keeps its type, its numeric bounds and exclusivity, its string and array limits, its properties and required properties, its enumeration, format, subschemas and metadata, and its nullability: a nullable schema admits null besides what it says, whether it has a type, is untyped (then the types its constraints speak of are named next to null) or combines subschemas. References stay references. Nothing is invented; a limit above u32::MAX becomes u32::MAX and an integer bound the nearest floating-point number.',
  'all schemas',
  'quantifies over all schemas; golden files contain a few hundred',
  [IM + 'to_schema.rs'], [('Convert impls', IM + 'to_schema.rs')], obs=['the converted schema'])
p('G17', 'References to shared components resolve to the component they name',
  'A reference to a shared parameter, request body or response resolves to the component of that kind whose key is the last part of the reference, following chains of references; an inline item resolves to itself. A parameter of an operation stands in for the path item\'s parameter of the same name.',
  'all component tables and acyclic reference chains',
  'quantifies over all tables and chains; golden files contain few references',
  [IM + 'util.rs'], [('ReferenceOr::item', IM + 'util.rs')], obs=['the resolved item'])
p('G18', 'The arms of a generated method are exactly the documented ones of that class',
  'The success (error) arms of a generated method are exactly the documented responses classified as success (error), in status order with the default last, except that a default is left out of the success arms when a 2XX range is documented. Where no success is documented an untyped 2XX range is assumed; a websocket channel adds status 101. All arms of one class share one result type.',
  'all operations',
  'quantifies over all response tables; golden files sample some',
  [IM + 'method.rs'], [('extract_responses', IM + 'method.rs')], obs=['the returned arms and type'])
p('G19', 'Pagination streams exist only where every pagination condition holds',
  'An operation gets a paginated stream exactly when it is marked for pagination, has both an optional page-token and an optional limit query parameter, has no required query parameter and no raw body, and has exactly one typed success response made of exactly an item list and an optional text next-page token; the stream yields that item type, and the first-page parameters are the ones the mark names as required.',
  'all operations',
  'quantifies over all operations; golden files sample some',
  [IM + 'method.rs'], [('dropshot_pagination_data', IM + 'method.rs')], obs=['presence of the stream method'])
p('G20', 'Generated methods send the documented request',
  'Calling a generated method sends the documented HTTP method to the documented path under the base URL, with every required and every given optional parameter in its documented place, a version header, the body in its documented content type, and the documented accept header. Hooks run once each, before and after the request.',
  'all documents and all argument values',
  'quantifies over all documents and arguments; golden files check text, not behaviour',
  [IM + 'method.rs', IM + 'lib.rs'], [('method_sig_body', IM + 'method.rs')], over=('programs', 'inputs'), obs=['the HTTP request on the wire'])
p('G21', 'Builders report unset or unconvertible required parameters instead of sending',
  'With builder-style clients, sending fails with an invalid-request error naming the parameter whenever a required parameter is unset or a given value failed to convert, and each setter affects only its own parameter.',
  'all documents and all sequences of setter calls',
  'quantifies over all documents and call sequences; golden files check text only',
  [IM + 'method.rs'], [('builder_struct', IM + 'method.rs')], over=('programs', 'histories'), obs=['result of send'])
p('G22', 'A pagination stream yields every item of every page exactly once, in order',
  'The stream of a paginated operation yields the items of the first page, then of each following page obtained with the page token of the previous response, until a page has no token; an error ends the stream and is reported.',
  'all page sequences',
  'needs servers with many pages; golden files check text only',
  [IM + 'method.rs'], [('positional_method stream code', IM + 'method.rs')], over=('histories', 'fault_sequences'), obs=['stream items'])
p('G23', 'Every OpenAPI document operation has a unique name and no unsupported reference',
  'Validation accepts a document only if every operation has an operation identifier, no two operations share one, and no path item is an external reference.',
  'all documents',
  'quantifies over all documents; tests use valid ones',
  [IM + 'lib.rs'], [('validate_openapi', IM + 'lib.rs')], obs=['accept or reject'])
p('G24', 'Crate names and versions in macro options are read as written',
  'A crate option of the form name@version, optionally renamed, is read as exactly that name, version and rename; anything that is not a valid crate name or version is rejected.',
  'all strings',
  'quantifies over all strings',
  ['progenitor-macro/src/lib.rs'], [('MacroCrateSpec, is_crate', 'progenitor-macro/src/lib.rs')], obs=['parsed options'])

p('G25', 'The operation model read from a document is the documented operation',
  'For every operation of a document, the model the client is generated from has the documented method, path, tags, summary and description (an empty text counts as none) and the snake-case form of its operation identifier. It has one argument for every parameter of the path item and of the operation (the operation\'s one where both have the same name) with the documented name, description and place and the type made from its schema, in sorted order; one body argument exactly when a request body with content is documented, raw for octet streams and texts, whose schema has to be a plain string; and one response for every documented one, the default first: typed by the first JSON content, else an upgrade for websocket channels, else raw if there is any content, else empty. Parameters in cookies or of a style other than form (query) and simple (path, header) are refused.',
  'all operations whose references resolve and that the generator supports',
  'quantifies over all operations and component tables; golden files sample a few documents',
  [IM + 'method.rs', IM + 'util.rs'], [('process_operation', IM + 'method.rs'), ('get_body_param', IM + 'method.rs'), ('parameter_map, items', IM + 'util.rs')], over=('inputs',), obs=['the operation model', 'arguments and result types of generated methods'])

p('G26', 'Generated mock expectations match exactly the documented requests and replies',
  'In the generated httpmock extension, every operation has a server method that sets up a mock with that operation\'s own expectation and reply. The expectation starts as exactly the documented HTTP method and the documented path with any text in place of each parameter. Setting a path, query or body parameter further restricts it to requests that carry that value under the documented name, or, for an optional query parameter set to None, to requests without it; nothing else changes. The reply has one method per documented response, which answers that status (a range method takes the status and refuses those outside of the range, a default method takes any) with the given body as documented, JSON with its content type.',
  'all documents of a family; all argument values and statuses',
  'the crate\'s golden files compare generated text of a few documents; nothing runs a generated mock',
  [IM + 'httpmock.rs'], [('httpmock, httpmock_method', IM + 'httpmock.rs'), ('as_wildcard, as_wildcard_param', IM + 'template.rs')], over=('inputs',), obs=['requests matched by a mock', 'the reply of a mock'])

p('G27', 'A generated command line takes the documented arguments and sends their request',
  'In the generated command line, every operation has its own command with an argument `--name` (kebab case) for every path, query and header parameter (the page token of a paginated operation left out) and for every scalar property of an object body that no parameter has the name of. A documented required parameter must be given, a required property unless a body file (`--json-body`) is given, and the file itself when a required property has no argument or the body is no object; a value is read as the documented type, an enumeration only as its documented texts; texts of help are those of the document. Running the command fills the operation\'s request with exactly the given arguments (a given file is the whole body), calls the override of that operation once, and only if that succeeds sends the request, once; it reports the outcome once, as item, as no item or as error, and ends well exactly on success. A paginated operation lists the items in order, at most the given limit, and then the end or the error.',
  'all documents of a family; all given arguments, files, overrides, pages and outcomes',
  'the crate\'s golden files compare generated text of a few documents; nothing runs a generated command line',
  [IM + 'cli.rs'], [('cli, cli_method', IM + 'cli.rs'), ('cli_method_args, cli_method_body_arg, clap_arg', IM + 'cli.rs')], over=('inputs', 'histories'), obs=['accepted and refused arguments', 'the request sent by a command', 'reports and the result of a command'])

p('G28', 'The crate cargo-progenitor writes is complete and declares all its code uses',
  'When cargo-progenitor ends well, the output directory holds exactly the crate asked for: a Cargo.toml with the given name, version, license and registry (publish only if one is given) that depends on exactly the crates its code uses, with the features it needs; a src/lib.rs with the code generated from the document (read as JSON, else as YAML) with the chosen interface and tag style; and, if asked to include it, the support code as src/progenitor_client.rs, a module of lib.rs, in place of a dependency on progenitor-client. Contents these files had before are replaced, and nothing else is changed. When no code can be generated, it fails and nothing is written.',
  'all arguments, documents, earlier contents of the directory, and points where the file system fails',
  'no test runs the command on a file system; golden files check generated text only',
  ['cargo-progenitor/src/main.rs'], [('main, dependencies, save, load_api', 'cargo-progenitor/src/main.rs'), ('From<InterfaceArg>, From<TagArg>', 'cargo-progenitor/src/main.rs')], over=('inputs', 'fault_sequences'), obs=['the files written', 'the outcome of the command'])

p('G29', "The options of generate_api! are what its code is generated with",
  'generate_api! expands to the code the generator makes from the named document, found relative to the directory of the manifest (or else the current directory) and read as JSON, else as YAML, with exactly the settings its options ask for: interface and tag style, inner type, the four hooks, map type, policy on unknown crates, crates with their versions and new names, derives, and patches, replacements and conversions of types, where a type is taken to implement FromStr and Display and what else is named, but not what is named with a question mark. Options not given are as if never set. progenitor_client is in reach of the code, and the document is an input of the compilation. It fails exactly when the options or the document cannot be read or no code can be made.',
  'all options and documents',
  'the macro is used in no test with most options, and what it sets cannot be seen from its output alone',
  ['progenitor-macro/src/lib.rs', 'progenitor-macro/src/token_utils.rs'], [('do_generate_api, From<MacroPatch> for TypePatch', 'progenitor-macro/src/lib.rs'), ('TypeAndImpls::into_name_and_impls', 'progenitor-macro/src/token_utils.rs')], over=('inputs',), obs=['the expansion of the macro'])

with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), [x['id'] for x in P if len(x['title']) > 80])
