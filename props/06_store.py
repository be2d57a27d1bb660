PM = "rust/pact_models/src/"
prop("P03", "Writing a pact gives the same text every time",
  "Two pacts of the same content are written as the same text in every specification version, whatever order their headers, parameters, rules and states were added in and whatever the hash seeds. A pact file holds exactly the pretty-printed JSON form of the pact; loading a V4 file and writing it again gives the same text. V4 interactions are written in a fixed order, older ones in the order they are listed.",
  ["inputs", "histories"], "All pacts, insertion orders and hash states.",
  "Tests compare single written files; map order only shows with several entries and another hash seed.",
  [PM + "sync_pact.rs", PM + "message_pact.rs", PM + "v4/pact.rs", PM + "pact.rs", PM + "json_utils.rs"],
  [("to_json", PM + "v4/pact.rs"), ("to_json", PM + "sync_pact.rs"), ("write_pact", PM + "pact.rs")],
  ["Pact::to_json, write_pact, overwrite_pact"], "proptest: metamorphic, rebuilding the same pact in other orders",
  "Up to four interactions; maps are rebuilt, which gives them new hash seeds.")
prop("P04", "V4 bodies are loaded with the bytes, type and hint they declare",
  "For every combination of content, content type, hint, encoding and header or metadata type, a V4 body is loaded with the bytes it stands for: base64 content decoded, JSON content of a JSON type as JSON text, and anything else as its text. The declared type wins over the header, the header over detection, and requests, responses and messages agree. Bytes of any type that are written as a V4 body load again unchanged, JSON as an equal document.",
  ["inputs"], "All body fragments and all bytes, types and hints.",
  "Tests load some twenty fixed fragments; base64 that is not valid, other encodings and disagreeing types are not combined.",
  [PM + "v4/http_parts.rs", PM + "bodies.rs", PM + "v4/message_parts.rs", PM + "content_types.rs"],
  [("body_from_json", PM + "v4/http_parts.rs"), ("OptionalBody::to_v4_json", PM + "bodies.rs")],
  ["body_from_json, OptionalBody, HttpRequest, V4 interactions"], "proptest: differential against a reference decoder, round trip",
  "Types come from a table of JSON, text and binary types plus texts that are no type.")
prop("P08", "Pact files on disk never lose an interaction, with any number of writers",
  "After any history of writes to a pact file, by threads or processes and onto a missing, empty or existing file, the file holds what the successful writes merged in order give: overwriting writes replace, others merge, and the file is always a whole pact that all readers accept. A write that fails (pacts that cannot be merged, a version that cannot hold them, a file that is no pact, a lock that is not granted) leaves the file as it was. Readers during writes see a complete pact that no earlier write is missing from.",
  ["inputs", "histories", "schedules"], "All histories of writes of all pact kinds and versions, and all interleavings of writers and readers.",
  "This code is not compiled for the target the tests run on, and tests would write once or twice from one thread.",
  [PM + "pact.rs", PM + "file_utils.rs", PM + "sync_pact.rs", PM + "message_pact.rs", PM + "v4/pact.rs"],
  [("write_pact / read_pact", PM + "pact.rs"), ("with_read_lock / with_write_lock", PM + "file_utils.rs"), ("read_pact / overwrite_pact", PM + "v4/pact.rs")],
  ["write_pact, read_pact, ReadWritePact::read_pact"], "proptest: stateful model-based histories; concurrent threads and processes against a set model",
  "Histories of up to six writes; up to five threads or four processes; a process that dies in the middle of a write is outside.")
prop("P09", "Interaction keys and hashes identify content, and nothing else",
  "Equal V4 interactions have equal hashes and the same unique key, in every run and however their maps were filled; interactions that differ in description, states, pending flag, method, path, query, status, headers, body bytes, metadata, rules or generators are unequal and have different keys. Comments, ids, plugin configuration, markup and the declared type of bodies do not enter the key. A key that was given is kept, and a computed key stays the same once it is assigned and through a file.",
  ["inputs"], "All pairs of interactions, rules and generators, over all hash states.",
  "Tests hash some fixed values; nondeterminism and fields missing from a hash need pairs that differ in one place only.",
  [PM + "v4/synch_http.rs", PM + "v4/async_message.rs", PM + "v4/sync_message.rs", PM + "v4/http_parts.rs", PM + "v4/message_parts.rs", PM + "matchingrules/mod.rs", PM + "generators/mod.rs", PM + "provider_states.rs", PM + "json_utils.rs"],
  [("unique_key / with_unique_key", PM + "v4/synch_http.rs"), ("impl Hash", PM + "v4/http_parts.rs"), ("hash_json", PM + "json_utils.rs"), ("impl Hash", PM + "matchingrules/mod.rs")],
  ["V4Interaction::unique_key, with_unique_key, Hash and PartialEq of models"], "proptest: pairs that differ in one part, equality and hash laws",
  "Equal hashes of unequal values are alarms although they could happen by chance once in 2^64; values differing only in empty maps or header case may share a key.")
prop("P10", "Query strings decode, encode and parse like the URL standard says",
  "Every text percent-encoded in any equivalent way decodes to itself, escapes that are none are left alone, and bytes that are not UTF-8 are an error. Parsing a query gives every parameter with its values in order, empty parts ignored and a missing equals sign kept apart from an empty value; writing it gives the parameters sorted by name in a form that parses to the same. The V1/V2 text form and the V3/V4 object form hold the same parameters.",
  ["inputs"], "All texts, bytes, escapes and parameter lists.",
  "Tests decode a dozen fixed strings.",
  [PM + "query_strings.rs", PM + "request.rs"],
  [("decode_query / encode_query", PM + "query_strings.rs"), ("parse_query_string / build_query_string", PM + "query_strings.rs"), ("query_from_json / v3_query_from_json / query_to_json", PM + "query_strings.rs")],
  ["query_strings functions"], "proptest: round trip and differential against a reference decoder",
  "Parameter names are not empty; characters whose code point has an even number of hex digits are written wrongly (known finding).")
prop("P11", "Header values split, combine and read the same under any case of the name",
  "A header value splits at its commas into its trimmed parts, except for headers whose value is a date, cookie or product text, which stay whole. Written as JSON, single values become texts and several values lists, and load again as the same header. Looking up, testing for, adding and replacing a header ignore the case of its name in every kind of request and response.",
  ["inputs", "histories"], "All header names, values and sequences of changes.",
  "Tests parse single headers in their usual spelling.",
  [PM + "headers.rs", PM + "json_utils.rs", PM + "http_parts.rs", PM + "request.rs", PM + "response.rs", PM + "v4/http_parts.rs"],
  [("parse_header", PM + "headers.rs"), ("headers_from_json / headers_to_json", PM + "json_utils.rs"), ("HttpPart::add_header / lookup_header_value", PM + "http_parts.rs")],
  ["parse_header, headers_from_json, headers_to_json, HttpPart"], "proptest: reference model over histories of header changes, round trip",
  "No header map holds two names that differ only in case.")
prop("P12", "Content types parse, print, classify and are detected consistently",
  "A content type in any case, spacing and quoting parses to its parts and prints as a text that parses to the same; texts that are no content type are errors. Whether it is JSON, XML, text, form or binary follows from its type and suffix, and a type without attributes is equivalent to the same type with any. Bodies without a declared type take the one of the header or metadata, else the one detected from their first bytes, and the text and display forms of a body follow from its type and hint.",
  ["inputs"], "All content types, documents, bytes and declared types.",
  "Tests parse and classify a fixed list of types and detect a few short documents.",
  [PM + "content_types.rs", PM + "bodies.rs", PM + "http_parts.rs", PM + "message.rs", PM + "v4/message_parts.rs"],
  [("ContentType", PM + "content_types.rs"), ("detect_content_type_from_string / detect_content_type_from_bytes", PM + "content_types.rs"), ("OptionalBody::display_string / value_as_string", PM + "bodies.rs")],
  ["ContentType, detect_content_type_*, HttpPart::content_type, OptionalBody"], "proptest: differential against a reference grammar and classification",
  "Detected documents are JSON, XML, HTML and plain texts of recognisable form; JSON texts that the library's expressions do not take for JSON are left out.")
