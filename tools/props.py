NOTES = ("No hooks in /repo: the checks link the crates as they are. checks/run.py builds the engine, the IR and a native replay "
         "binary under /verif/build from the current trees (content-hashed), explores every job, replays counterexamples natively and "
         "compares sampled paths with native runs. Known findings: known_findings.json.")

P("C01", "A path parameter value arrives at the server as exactly that one segment",
  "Whatever text a caller passes as a path parameter, the request's URL has exactly the segments the template prescribes and the parameter's segment percent-decodes to exactly that text. Scheme, host, port, query and fragment of the URL are never influenced by it.",
  ["inputs"], "every UTF-8 string, alone or next to other parameters of the same template",
  "The tests encode five fixed strings; the guarantee is about every character and every combination with URL parsing (separators, dot segments, escapes, non-ASCII, long values).",
  [("percent-encoding set", "PATH_SET"), ("encoder used by every generated method", "encode_path"), ("generated call sites", "progenitor-impl/src/template.rs: PathTemplate::compile")],
  ["the url of the built request"], "Every string up to 4 bytes (all UTF-8), pairs of strings, and long strings of repeated bytes, through encode_path and the real URL parser.",
  files=[C, "progenitor-impl/src/template.rs"])

P("C02", "A scalar query parameter is sent as name=value and decodes to that value",
  "A string, integer, boolean, character or floating-point query parameter contributes exactly one pair to the request's query, whose decoded name is the parameter's name and whose decoded value is the value's text, at full precision. Nothing else of the request changes.",
  ["inputs"], "every parameter name and every scalar value",
  "The tests send one value of a few types; escaping, integer limits, floats and names with reserved characters are unbounded spaces.",
  [("scalar cases of the parameter serializer", "serialize_scalar! in impl Serializer for QuerySerializer"), ("parameter wrapper", "QueryParam::new, QueryParam::serialize")],
  ["the query of the built request"], "All strings and names to 3 bytes, all 8/16-bit integers, all chars and bools through to the URL; all 32/64-bit integers and floats up to the form serializer.")

P("C03", "A list query parameter is sent as one pair per element, in order",
  "A list-valued query parameter contributes exactly one pair per element, each under the parameter's name, in the list's order, with no element lost, repeated or altered; an empty list contributes nothing.",
  ["inputs"], "every list length and every element value, with or without a size known in advance",
  "The tests send a list of two strings; order, duplicates, length limits and element kinds are not sampled.",
  [("sequence case", "QuerySerializer::serialize_seq"), ("element under the parameter's name", "impl SerializeSeq for QuerySeq")],
  ["the query of the built request"], "Lists to 260 elements (symbolic bytes/words), strings to 2 bytes each, options inside lists.")

P("C04", "A map or object query parameter is sent as its own entries",
  "A map- or object-valued query parameter contributes exactly one pair per entry or present field, with the entry's key or field's name and its value, in order, and absent optional fields contribute nothing.",
  ["inputs"], "every key, field value and combination of absent fields",
  "The tests send one map and one struct with fixed ASCII contents.",
  [("map and struct cases", "QuerySerializer::serialize_map, QuerySerializer::serialize_struct")],
  ["the query of the built request"], "Maps with up to 2 symbolic entries, objects with optional fields, and any map or struct shape of width 2.")

P("C05", "Enum and newtype query parameters are sent as the value they stand for",
  "A query parameter that is an enumeration is sent according to its declared JSON representation: a plain variant as its name under the parameter's name, tagged and object variants as their fields, untagged variants as their content. A newtype is sent exactly like the value it wraps.",
  ["inputs"], "every representation (external, internal, adjacent, untagged), every variant kind and payload, nested in options, lists and newtypes",
  "Each test fixes one enum and one payload; combinations of wrapper, variant kind and payload are not sampled.",
  [("variants", "QuerySerializer::serialize_unit_variant, serialize_newtype_variant, serialize_struct_variant, serialize_tuple_variant"), ("newtypes", "QuerySerializer::serialize_newtype_struct")],
  ["the query of the built request"], "17 derived enum and newtype shapes with symbolic payloads plus every serializer-level variant shape of depth 1 (any leaf) and 2.")

P("C06", "An absent optional query parameter sends nothing, a present one its value",
  "An optional query parameter that is absent leaves the request's query untouched, and one that is present is sent exactly as its value would be sent without the option, at every level of nesting.",
  ["inputs"], "every value, every nesting of options, under every name",
  "The tests cover Some/None of one string at the top level only.",
  [("options", "QuerySerializer::serialize_some, QuerySerializer::serialize_none")],
  ["the query of the built request"], "Options around every shape of depth 1 with any leaf and depth 2 with 4 leaf kinds; every name to 2 bytes.")

P("C07", "A query value that cannot be represented is an error, never dropped",
  "For every value, building a request with it as a query parameter either fails with an error, or yields a request whose query carries every part of the value that is not declared absent. No value is silently dropped, truncated or sent under another name, and values that a query can represent are accepted.",
  ["inputs"], "every value shape (nesting, width, leaf kinds) a serializer can be handed",
  "Only a handful of shapes are tested; the claim is about all shapes, including nested and failing ones.",
  [("every case of the parameter serializer", "impl Serializer for QuerySerializer")],
  ["the request builder's result and the query of the built request"], "Every shape of depth 1, width 2 and of depth 2, width 1, from all 20 serializer calls.")

P("C08", "Query parameters accumulate in call order and leave the rest of the URL alone",
  "Adding several query parameters to a request, to a URL that may already have a query, yields the existing pairs followed by each parameter's pairs in the order added, and scheme, host, port, path and fragment stay as given.",
  ["inputs", "histories"], "every sequence of parameters of mixed shapes, absent ones included",
  "Tests add one parameter to a bare URL; interactions of absent, list and object parameters with an existing query are not sampled.",
  [("parameter wrapper", "QueryParam::serialize")],
  ["the url of the built request"], "Four parameters (list, optional, string, object) after an existing query, symbolic strings to 2 bytes.")

P("C09", "A form body decodes to exactly the value's fields, typed as a form",
  "Sending a value as a form-encoded body yields a request with exactly one content type, application/x-www-form-urlencoded, and a body that decodes to exactly the value's present fields in order, leaving URL, method and other headers alone. A value that a form cannot represent is reported as an invalid request before anything is sent.",
  ["inputs"], "every field name, field value and value shape",
  "No existing test builds a form body.",
  [("form bodies", "RequestBuilderExt::form_urlencoded")],
  ["headers and body of the built request"], "Symbolic keys and values to 2 bytes; every value shape of depth 1, width 2 and depth 2, width 1.")

P("C10", "A decoded response is the body's JSON value, with status and headers kept",
  "Decoding a response yields exactly the value its body's JSON text denotes together with the response's status and headers, however the body is split into chunks and delayed; a body that is not valid JSON for the type (empty, truncated, trailing data, wrong type) is reported as an invalid payload carrying the body byte for byte and the decoder's error.",
  ["inputs", "schedules"], "every body, every split into chunks with waits, every status and header set",
  "No existing test decodes a response.",
  [("decoding", "ResponseValue::from_response"), ("payload error", "Error::InvalidResponsePayload")],
  ["the returned value or error"], "12 target types with arbitrary bodies of up to 3 bytes (longer with fixed frames), every two-way split, every status.")

P("C11", "A response body that breaks off is an error, never a value",
  "If the transport fails before a response body is complete, decoding it reports a body error carrying the transport's cause, even when the bytes received so far form a complete document.",
  ["fault_sequences", "schedules"], "every failure point, with waits before and after, every content received before it",
  "No existing test injects a transport failure.",
  [("decoding", "ResponseValue::from_response"), ("body error", "Error::ResponseBodyError")],
  ["the returned error and its cause chain"], "Failure after 0..3 arbitrary bytes or after a complete document, with and without waits.")

P("C12", "A streamed response delivers the body's bytes unchanged and in order",
  "A streaming response yields exactly the body's bytes in order as they arrive, waits when the transport waits, reports a transport failure when it happens and ends when the body ends, keeping the response's status and headers.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of arrivals, waits and failures, every content",
  "No existing test streams a response.",
  [("streaming", "ResponseValue::stream, ResponseValue::into_inner_stream"), ("byte stream", "ByteStream::new, ByteStream::into_inner, Deref")],
  ["polls of the returned stream"], "Every schedule of up to 4 events, plus transfers of up to 300 chunks or 12 KiB.")

P("C13", "An empty response keeps its status and headers whatever its body",
  "Treating a response as having no content succeeds for every response and keeps its status and headers, whether its body is absent, non-empty, delayed or failing.",
  ["inputs", "fault_sequences"], "every status, header set and body behaviour",
  "No existing test covers empty responses.",
  [("no content", "ResponseValue::empty")], ["the returned value"], "Every status, symbolic header values, three body behaviours.")

P("C14", "A connection is upgraded only after a 101, other responses are handed back",
  "Upgrading succeeds only for a response with status 101; any other response, successful ones included, is returned as an unexpected response with status, headers and body intact, and a 101 whose connection cannot be upgraded is reported as an invalid upgrade.",
  ["inputs"], "every status 100..=999, header set and body",
  "No existing test upgrades a connection.",
  [("upgrade", "ResponseValue::upgrade")], ["the returned value or error"], "Every status, symbolic headers and body.")

P("C15", "A response value exposes exactly its payload, status and headers",
  "Wrapping a payload with a status and headers, reading it by reference, writing through it, mapping it and unwrapping it give back exactly what was put in: status and headers never change and the payload is only changed by the caller's own writes or mapping; it prints, under any formatting option, as the payload does.",
  ["inputs", "histories"], "every payload, status and header set, every accessor",
  "No existing test uses these accessors.",
  [("accessors", "ResponseValue::{new, into_inner, status, headers, map}, Deref, DerefMut, AsRef")], ["the accessors' results"], "Every status, 64-bit and byte-vector payloads, symbolic header values.")

P("C16", "content_length is the header's decimal number, when present and valid",
  "The reported content length is the decimal number in the Content-Length header if the header is present and consists of digits only with a value that fits 64 bits, and is otherwise reported as unknown.",
  ["inputs"], "every header value",
  "No existing test reads a content length; signs, blanks, overflow and non-ASCII values are the cases that matter.",
  [("parsing", "ResponseValue::content_length")], ["the accessor's result"], "Every header value of up to 4 bytes, and numerals around the 64-bit limit.")

P("C17", "An error reports the status of the response it came from, and only that",
  "Asking an error for its status gives the status of the response that caused it for documented errors, unexpected responses and transport errors that carry one, and nothing for errors that did not come from a response's status.",
  ["inputs"], "every kind of error and every status",
  "No existing test inspects errors.",
  [("status", "Error::status")], ["the accessor's result"], "All 9 kinds, every status, four kinds of transport error.")

P("C18", "Dropping an error's type keeps its kind and everything else it carries",
  "Converting a typed error to an untyped one keeps the kind of error and all it carries (message, cause, raw payload, response with its body, status and headers), losing only a documented error's typed body.",
  ["inputs"], "every kind of error and content",
  "No existing test converts errors.",
  [("conversion", "Error::into_untyped")], ["the converted error"], "All 9 kinds, every status, symbolic headers and text.")

P("C19", "An error's text names its kind and details, alternate text adds every cause",
  "An error's display text names its kind followed by its details (message, transport error, payload bytes and decoder error, or status, headers and value), its debug text is the same, and the alternate form appends every further underlying cause in order exactly once. Its source is the underlying transport or decoder error, if there is one, and formatting never consumes a streamed body.",
  ["inputs"], "every kind of error, message, status and cause chain",
  "No existing test formats an error.",
  [("text", "impl Display for Error, impl Debug for Error, ErrorFormat"), ("cause", "impl std::error::Error for Error")], ["formatted text, source chain"],
  "All 9 kinds, text to 2 symbolic bytes, cause chains of up to 4 errors.")

P("C20", "Transport and header failures become the right kind of error",
  "A transport error converted into a client error is a communication error carrying that transport error unchanged, and an invalid header value converted into a client error is an invalid-request error carrying its message.",
  ["inputs"], "every kind of transport error and every invalid header value",
  "No existing test converts such errors.",
  [("conversions used by generated methods", "impl From<reqwest::Error> for Error, impl From<InvalidHeaderValue> for Error")], ["the converted error"],
  "Four kinds of transport error with every error status, every header value of up to 3 bytes.")

M, T_, B_ = "progenitor-impl/src/method.rs", "progenitor-impl/src/template.rs", "progenitor-impl/src/lib.rs"
NOGEN = "The generator has no runnable test of what its output does; golden files only compare text, for a few documents, and the properties quantify over argument values and answers."

P("C21", "A generated operation sends one request: documented method, filled-in URL",
  "Calling a generated operation, in every interface style, sends exactly one HTTP request, with the method the document gives for the operation and a URL that is the client's base URL followed by the document's path template in which every parameter's place is filled with that parameter's value, and it carries nothing else than what the document describes and the API version. If the transport fails the request is not repeated and the call yields a communication error.",
  ["inputs", "faults"], "every value of every path parameter, every template shape, every method, positional, builder and tagged styles",
  NOGEN, [("template compilation", T_ + ": PathTemplate::compile"), ("method body", M + ": Generator::method_sig_body"), ("methods", M + ": HttpMethod"), ("client constructors", B_ + ": Generator::generate_tokens")],
  ["the request handed to the HTTP client", "the call's result"],
  "The real generator's output for fixed documents with 16 template shapes is executed symbolically: every value to 3 bytes (2 with several parameters), typed parameters at their limits.", files=[M, T_, B_, C])

P("C22", "A generated operation sends each given query parameter under its own name",
  "A generated operation sends each query parameter that is required or given, exactly under the name the document gives it and with the caller's value, including parameters inherited from the path item (the operation's own declaration wins) or declared by reference, and sends nothing for those not given. Query parameters never leak into path, headers or body.",
  ["inputs"], "every value and every subset of given parameters, every interface style, inherited, overridden, referenced and renamed parameters",
  NOGEN, [("parameter collection and override", M + ": Generator::process_operation"), ("query parameters in the body", M + ": Generator::method_sig_body")],
  ["the url of the request handed to the HTTP client"], "Six parameters, any subset, one at a time every text of 2 bytes; lists of up to 3 items; booleans, enumerations, 32/64-bit integers at their limits.", files=[M, C])

P("C23", "A generated operation sends exactly the documented headers, or refuses",
  "A generated operation sends the API version of the document and each header parameter that is required or given, once, with exactly the caller's value; a value that no header can carry makes the call fail as an invalid request without anything being sent, and every other value is accepted.",
  ["inputs"], "every header value and every subset of given headers",
  NOGEN, [("headers in the body", M + ": Generator::method_sig_body"), ("conversion errors", "impl From<InvalidHeaderValue> for Error")],
  ["the headers of the request handed to the HTTP client", "the call's result"], "Two symbolic header values of up to 3 bytes together, optional ones present or not, integers at their limits.", files=[M, C])

P("C24", "A generated operation sends the body in the documented encoding",
  "A generated operation sends the caller's body in the encoding the document names (JSON, form, octet stream, text types as such), announced by exactly that content type, decoding to exactly the caller's value, together with the operation's path, query and header parameters.",
  ["inputs"], "every body value for every documented content type",
  NOGEN, [("body kinds", M + ": Generator::get_body_param, BodyContentType"), ("body in the request", M + ": Generator::method_sig_body"), ("form encoding", "RequestBuilderExt::form_urlencoded")],
  ["body and headers of the request handed to the HTTP client"], "Seven body kinds with every text of up to 3 bytes (2 in objects) and a symbolic or absent number.", files=[M, C])

P("C25", "Every answer becomes the result the document gives for its status",
  "For every status code and every body, the result of a generated operation is decided by the document: a documented success yields the value (or stream, or nothing) with status and headers, a documented error yields an error response carrying its typed value, exact codes win over ranges and ranges over the default, a documented answer that does not decode yields an invalid-payload error with the raw body, and everything undocumented yields an unexpected-response error whose body is still readable.",
  ["inputs", "schedules"], "every status 100..=999, bodies that decode, decode as something else, do not decode or are missing, late or split answers, every way of documenting responses",
  NOGEN, [("response kinds", M + ": Generator::process_operation"), ("which match which", M + ": Generator::extract_responses, OperationResponseStatus"), ("match arms", M + ": Generator::method_sig_body")],
  ["the call's result"], "19 ways of documenting responses x every status x 4 kinds of body, in both styles.", files=[M, C])

P("C26", "A paginated operation streams every item once, asking page by page",
  "The stream of a paginated operation yields the items of every page in order, each once: the first request carries the caller's parameters without a page token, each later one the token just received plus the limit and the non-query parameters and no other query parameter, pages are requested only when their items are needed, and the stream ends after the page without a token or with the first error, after the items before it.",
  ["inputs", "histories", "faults"], "every sequence of pages, page sizes, tokens and failures, any subset of parameters",
  NOGEN, [("positional stream", M + ": Generator::positional_method"), ("builder stream", M + ": Generator::builder_struct"), ("detection", M + ": Generator::dropshot_pagination_data")],
  ["items delivered", "requests handed to the HTTP client, in order"], "Up to 3 pages (5 thorough) of up to 2 items with symbolic items and tokens, any ending.", files=[M, C])

P("C27", "Request and response hooks run once, in order, and decide as documented",
  "Configured hooks run exactly once per call: the pre-hooks before the request is sent, with the request as it will be sent and able to change it, the post-hooks after the outcome is known and with that outcome. A failing pre-hook ends the call with its message and nothing is sent; a failing post-hook ends the call with its message; otherwise the answer alone decides the result.",
  ["inputs", "faults", "schedules"], "every outcome of the hooks and of the transport, every status",
  NOGEN, [("hook calls", M + ": Generator::method_sig_body"), ("settings", B_ + ": GenerationSettings")], ["order of events", "the call's result"],
  "Both asynchronous and synchronous hooks with any outcome, any status, symbolic messages and inner value.", files=[M, B_, C])

P("C28", "A builder sends what was set last, or refuses and sends nothing",
  "A request builder with a required parameter never set, or set last to a value that does not convert to the documented type (even if an earlier one did), fails as an invalid request and sends nothing. Otherwise it sends the value set last for each parameter, whatever the order of the setters and even if the builder was copied, and bodies assembled field by field obey the same rule.",
  ["inputs", "histories"], "every subset, order and repetition of setters, every value that may or may not convert",
  NOGEN, [("builder structures", M + ": Generator::builder_struct")], ["the call's result", "the request handed to the HTTP client"],
  "Every subset of four required parameters in two orders, set once or twice; every 64-bit value around the limits of a 32-bit parameter; every text of 1-7 bytes for an enumeration.", files=[M, C])

P("C29", "A websocket operation asks for an upgrade and only accepts 101",
  "A websocket operation sends one GET request with the upgrade headers the protocol prescribes, a fresh 16-byte key in base64 and its own parameters in their places; status 101 starts the upgrade, every other status is an unexpected response.",
  ["inputs"], "every nonce, parameter subset and status",
  NOGEN, [("websocket headers and 101", M + ": Generator::method_sig_body, Generator::process_operation"), ("upgrade", "ResponseValue::upgrade")], ["the request handed to the HTTP client", "the call's result"],
  "All 16 nonce bytes symbolic, any status.", files=[M, C])

P("C30", "Parameters named like generated variables or keywords still arrive",
  "A parameter may have any name the document allows, including those of Rust keywords and of variables the generated code uses itself: its value still reaches exactly its own place in the request, in every interface style.",
  ["inputs"], "every value of parameters with such names",
  NOGEN, [("unique local names", "progenitor-impl/src/util.rs: unique_ident_from, sanitize"), ("their use", M + ": Generator::method_sig_body, Generator::builder_struct")], ["the request handed to the HTTP client"],
  "Eight parameters named after the generated code's locals and three named like keywords, with symbolic values.", files=[M, "progenitor-impl/src/util.rs", C])


U_, S_ = "progenitor-impl/src/util.rs", "progenitor-impl/src/to_schema.rs"
NOUNIT = "The few unit tests sample a handful of inputs and the golden files compare text of a few documents; the property quantifies over every document of these forms."

P("C31", "Path templates are read exactly or refused",
  "A path template is accepted exactly if it starts with a slash and its braces pair up, unnested, around names without slashes; an accepted template keeps every constant character (runs of slashes become one) and every parameter, in order, and reports exactly the parameter names it contains.",
  ["inputs"], "every template text", NOUNIT, [("state machine", T_ + ": parse"), ("names and text", T_ + ": PathTemplate::names, Display")],
  ["the parsed template or the error"], "Every UTF-8 text to 5 bytes, every ASCII text to 8, every arrangement of 6 pieces (slashes, braces, words, parameters, a free character).", files=[T_])

P("C32", "Names in documents become distinct, legal Rust identifiers",
  "Every parameter, operation or type name becomes a legal Rust identifier in the required case which keeps the name's letters and digits in order and keeps words apart that other characters separate; legal names stay as they are, reserved words get an underscore, and the names the generated code uses for its own variables never equal one of the operation's parameters.",
  ["inputs"], "every name and every set of names", NOUNIT, [("identifiers", U_ + ": sanitize"), ("generated locals", U_ + ": unique_ident_from")],
  ["the identifier"], "Every ASCII name to 4 characters, every word to 12, every reserved word with a neighbour, sets of 3 names.", files=[U_])

P("C33", "Documents of other versions or without distinct operation ids are refused",
  "A document is accepted exactly if its version is an OpenAPI 3.0 one, no path is a reference, and every operation of every path, whatever its method, has an operation id that no other operation has.",
  ["inputs"], "every version text, every assignment of ids to operations", NOUNIT, [("validation", B_ + ": validate_openapi, validate_openapi_spec_version")],
  ["accepted or refused"], "Every ASCII version to 8 characters and all near 3.0.; two paths with up to two operations each under any methods.", files=[B_])

P("C34", "An operation's arguments are its declared parameters, in the documented order",
  "The arguments of a generated operation are exactly the parameters declared by the operation and inherited from its path, the operation's declaration winning over the path's, references (also chains) resolved, each with its declared place and requiredness, ordered: path parameters as in the template, query and header parameters by name, then the body.",
  ["inputs"], "every set of parameter declarations", NOUNIT, [("collection", M + ": Generator::process_operation, sort_params"), ("references", U_ + ": parameter_map, ReferenceOrExt::item")],
  ["the operation's argument list"], "Two parameters declared in any way under any names; up to 33 parameters (64 thorough) in five layouts, two of them in any place.", files=[M, U_])

P("C35", "Declared responses decide success, error or unexpected for every status",
  "From the declared responses follows, for every status code, whether an answer is a success, a documented error or unexpected, and how its body is read: as JSON exactly if application/json (with or without parameters) is among the declared content types, as a stream for other content, as nothing without content. Responses by reference count like inline ones, ranges cover their whole class, the default covers what is left, and an operation that declares no success accepts any.",
  ["inputs"], "every declaration of responses, every status", NOUNIT, [("kinds", M + ": Generator::process_operation"), ("selection", M + ": Generator::extract_responses, OperationResponseStatus")],
  ["the success and error responses selected, in order"], "Up to two declared codes (symbolic within their class) or classes plus a default, seven kinds of content, every status 100..=599.", files=[M, U_])

P("C36", "Schemas keep their meaning in translation",
  "The schema handed to the type generator accepts what the document's schema accepts: types, null, formats, enumerations, all limits (inclusive or exclusive), lengths, patterns, required and optional properties, items, alternatives, references, titles, descriptions and defaults are kept; a schema that names no type is read from what it does constrain, and nullable adds null and nothing else.",
  ["inputs"], "every schema and every value of its limits", NOUNIT, [("translation", S_ + ": impl Convert<Schema> for ..., ToSchema")],
  ["the translated schema"], "Every combination of keywords per schema kind, with symbolic 32-bit sizes, floating-point and integer limits, names, flags, up to two members.", files=[S_])

P("C37", "An operation gets a page stream exactly if it returns pages",
  "A stream over all pages is generated exactly for operations marked as paginated whose page_token and limit are optional query parameters, whose other query parameters are not required, whose required-first parameters are optional, which have no raw body, and whose one success is a page: an object of items and an optional next_page string token.",
  ["inputs"], "every operation, marked or not", NOUNIT, [("detection", M + ": Generator::dropshot_pagination_data")], ["whether the operation is paginated"],
  "Every combination of absent, required, misplaced or misnamed parameters, page types one step from a page, one or two responses of any class, bodies.", files=[M])

P("C38", "Bodies are sent by their documented type, others refused",
  "An operation's body is one argument, sent as the documented media type (parameters of the type aside); media types the client cannot encode are refused when the client is generated, as are raw and text bodies that are not plain unconstrained strings. Request bodies by reference count like inline ones. Every operation keeps its documented method.",
  ["inputs"], "every media type and body schema", NOUNIT, [("body argument", M + ": Generator::get_body_param"), ("media types", M + ": BodyContentType::from_str"), ("methods", M + ": HttpMethod::from_str")],
  ["the operation's arguments, or refusal"], "Every media type to 8 ASCII characters, all that differ from a supported one in one character or its ending; 45 kinds of body schema per media type, inline and by reference.", files=[M, U_])

CL_, MK_ = "progenitor-impl/src/cli.rs", "progenitor-impl/src/httpmock.rs"
P("C39", "A generated command line asks for, sends and reports what the document says",
  "Each operation has its own command with one argument per parameter. A command line is accepted exactly if every required parameter (and body field, unless a body file is given) is present and every value is of its documented type; each value is then sent in its own place and under its documented name, the body assembled from its fields. The outcome of the call is reported exactly once, successes as successes and failures as failures; a list reports its items in order up to the limit, then its end.",
  ["inputs", "fault_sequences"], "every argument text, every subset and order of arguments, every status and page sequence", "The golden tests compare the generated text with a stored copy; nothing runs it.", [("arguments", CL_ + ": Generator::cli_method, CliArg"), ("execution", CL_ + ": cli_ops"), ("request", M + ": Generator::builder_struct")],
  ["accepted or refused arguments, the request sent, what CliConfig is told"], "A document of six operations; arguments to 3 ASCII bytes (5 thorough), any subset of 8; every status 200..=599; up to 3 pages.", files=[CL_, M])

P("C40", "A generated mock matches its operation's requests and answers as told",
  "The mock of an operation matches the requests the generated client sends for that operation and no other operation's; with a prescribed path, query or body value (or a query parameter prescribed absent) it matches exactly the requests that carry that value (or lack it). What a mock is told to answer is what the client returns, under the named status.",
  ["inputs"], "every prescribed and sent value, every status", "The golden tests compare the generated text with a stored copy; nothing runs it.", [("when", MK_ + ": Generator::httpmock_method"), ("path", "progenitor-impl/src/template.rs: PathTemplate::as_wildcard, as_wildcard_param")],
  ["whether a request matches, what the client returns"], "A document of nine operations; words of letters and digits (1-2 in paths, to 8 elsewhere), every status of the answer's class.", files=[MK_, "progenitor-impl/src/template.rs"])

MC_, CG_, LB_ = "progenitor-macro/src/lib.rs", "cargo-progenitor/src/main.rs", "progenitor-impl/src/lib.rs"
P("C41", "generate_api! makes the client of its document, as its options say",
  "generate_api! expands to the client that the generator makes of the named document (JSON or YAML, relative to the crate's manifest directory or absolute) under the options given: interface, tags, inner type and hooks appear in the client; derives, map type, crates, the policy for unknown crates, patches, replacements and conversions reach type generation exactly as written, traits denied with ? are not assumed. The library's settings likewise take effect whatever others are set, in any order; the expansion depends on the document, so that a change to it rebuilds the client. A document that cannot be read or is not supported, and a crate name or version that is none, is a compile error and no client.",
  ["inputs"], "every combination of options, every crate name and version", "The macro's tests expand a handful of documents.",
  [("options", MC_ + ": do_generate_api, MacroSettings"), ("crates", MC_ + ": MacroCrateSpec, CrateName"), ("bounds", MC_ + ": TypeAndImpls, into_type_and_impls"), ("document", MC_ + ": open_file"), ("settings", LB_ + ": GenerationSettings, Generator::new")],
  ["the expansion, the settings handed to type generation"], "One small document; every interface, tag style, inner type; pairs of hooks; crate names and versions to 2 printable characters (3 thorough); up to 2 bounds (3 thorough).", files=[MC_, LB_])

P("C42", "cargo progenitor writes the document's client as a crate that can be built",
  "The crate written has the name, version, license and registry given, the generated client of the document under the chosen interface and tags as its lib.rs, and the support code or the dependency on progenitor-client as asked; it lists every crate that the written code uses exactly once. Files of an earlier run are replaced whole. JSON and YAML documents count alike; a document that cannot be read or is not supported is an error and nothing is written for it.",
  ["inputs"], "every combination of options, every name, every set of needs", "No test runs the command on more than the stored documents.",
  [("command", CG_ + ": main, Args"), ("dependencies", CG_ + ": dependencies; " + LB_ + ": Generator::uses_futures, uses_websockets"), ("files", CG_ + ": save, load_api, reformat_code")],
  ["Cargo.toml, src/lib.rs, src/progenitor_client.rs, the exit status"], "Two small documents; names to 6 printable characters (40 thorough); every pair of six needs.", files=[CG_, LB_])

P("C43", "Generated code says what the document says of it",
  "Each generated method's documentation is its operation's summary (without full stops or commas at its end) and description, whole and in this order, then the HTTP method and path of the request it sends, then, if any parameter is described, every argument with its description under the name the method gives it; builder methods add an example that sets each parameter, and page streams are described in the same way, without the page token. The client's documentation gives the document's title, description, terms and version, and api_version() is that version. A command's help is its operation's summary and description, an argument's is its parameter's description; texts that the document leaves out are left out.",
  ["inputs"], "every text, every combination of texts present", "The golden tests compare stored documents' output; their texts hold hardly any special characters.",
  [("methods", M + ": make_doc_comment, make_stream_doc_comment, Generator::builder_helper"), ("client", LB_ + ": Generator::generate_tokens (client_docstring)"), ("commands", CL_ + ": Generator::cli_method, clap_arg")],
  ["documentation attributes of the generated methods, client and builders; about and help texts of commands"], "Two operations with up to three parameters; each text in turn 0-2 arbitrary ASCII characters (3 thorough), each combination of texts present; every HTTP method.", files=[M, LB_, CL_])

P("C44", "With separate tags, an operation is found under each of its tags",
  "With separate tags, each tag that an operation has becomes one trait, named for the tag (tags of the same name as an identifier share it), that the client implements and the prelude exports; it offers exactly the operations with that tag, each once, and carries the tag's description if the document gives one. Operations without tags are the client's own; with merged tags every operation is, and there are no traits. Wherever an operation is offered, it makes that operation's one builder.",
  ["inputs"], "every assignment of tags to operations", "The golden tests hold one assignment.",
  [("traits", M + ": Generator::builder_tags"), ("merged", M + ": Generator::builder_impl"), ("prelude", LB_ + ": Generator::generate_tokens_builder_separate")],
  ["the traits, implementations and prelude of the generated code"], "Tags of up to 3 free letters (5 thorough); three operations, two tags of fourteen names, in either order, one also listed twice; described or not; told by the document or not.", files=[M, LB_])

P("C45", "A client keeps the address, connection and inner value it was made with",
  "A generated client reports the base URL it was made with, unchanged, as baseurl(), the connection as client(), the inner value as inner() and the document's version as api_version(); every request goes through that connection to an address that begins with that base URL, however many were sent before. A client made with new has a connection of its own that gives up after 15 seconds, both connecting and in all. A copy behaves as the original.",
  ["inputs", "histories"], "every base URL, every way to make the client", NOUNIT,
  [("client", LB_ + ": Generator::generate_tokens (struct Client, impl Client)")],
  ["the accessors; the connection and URL of each request"], "Base URLs to 6 bytes (8 thorough); three base URLs for calls; five styles of client; copies.", files=[LB_])
