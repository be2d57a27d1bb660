F = "rust/pact_ffi/src/mock_server/"
prop("P49", "A pact built through the C functions has exactly what was set",
  "After any sequence of calls on handles of pacts, interactions and messages, the pact has each interaction with what was set last for it, in order, and nothing set for another one; the file written has the same. Calls with a handle that does not exist or with something that can not be understood return failure and leave the pact as it was.",
  ["histories"], "All sequences of calls of the functions that build pacts (requests, responses, bodies, headers, query, states, comments, metadata, messages, pending, keys) on several pacts and interactions, valid and not.",
  "Tests build one pact with a fixed sequence of calls each.", [F + "handles.rs", F + "bodies.rs"],
  [("PactHandle, InteractionHandle: with_pact, with_interaction", F + "handles.rs"), ("exported pactffi_* functions of the builder", F + "handles.rs"), ("process_body", F + "bodies.rs")],
  ["the pact behind the handle", "pact files written"], "proptest: model-based generation of sequences of calls against a reference pact", "Up to 40 calls on up to three pacts; freed handles are used in histories of their own, as handles are random numbers.", crate="ffi")
prop("P50", "JSON with matching rules inside gives the example, the rules and the generators",
  "A body given as JSON whose members name matching rules and generators (pact:matcher:type) becomes the body without them, with each rule and generator at the path of the value it was given for, whether it is nested in objects, lists or rules about their members; everything else stays as it is. A body of the pact written and read again is the same.",
  ["inputs"], "All JSON documents with any rules, nested anywhere, for requests, responses and messages.",
  "Tests have one document per rule.", [F + "bodies.rs", "rust/pact_models/src/matchingrules/mod.rs"],
  [("process_json, process_object, process_array, matchers_from_integration_json", F + "bodies.rs"), ("pactffi_with_body", F + "handles.rs")],
  ["the pact behind the handle"], "proptest: documents generated together with their expected body, rules and generators", "Names of members are not only digits.", crate="ffi")
prop("P51", "Headers, query, path, method and metadata take values with matching rules",
  "A value given as the JSON form of a matching rule for a header, query parameter, path, status or item of metadata sets the value, its rules and its generator for that name and position and keeps what other names have; a plain text is taken as it is. Several values given under one name are all kept, in order.",
  ["inputs", "histories"], "All sequences of such calls with plain values and values with rules, single and lists.",
  "Tests set one value with one rule.", [F + "handles.rs"],
  [("pactffi_with_query_parameter_v2, pactffi_with_header_v2, pactffi_with_request, pactffi_with_metadata", F + "handles.rs"), ("from_integration_json_v2, matching_rule_from_integration_json", F + "handles.rs")],
  ["the pact behind the handle"], "proptest: sequences of calls generated with the expected values, rules and generators", "One name is used in one case only.", crate="ffi")
prop("P52", "XML and form bodies described in JSON become what is described",
  "The JSON description of an XML document gives a document with the described elements, attributes and texts, repeated as often as examples are asked for, and the rules and generators at the paths of those elements, attributes and texts. The JSON description of a form gives a form with those values, and the rules and generators of the values that are in it.",
  ["inputs"], "All descriptions of XML documents and forms with rules on elements, attributes, texts and values.",
  "Tests describe two XML documents and a few forms.", [F + "xml.rs", F + "form_urlencoded.rs", F + "bodies.rs"],
  [("generate_xml_body", F + "xml.rs"), ("process_form_urlencoded_json", F + "form_urlencoded.rs")],
  ["the pact behind the handle"], "proptest: descriptions generated together with the document or form, parsed by the check, and rules expected", "Element names have no namespace prefix.", crate="ffi")
M = "rust/pact_ffi/src/models/"
prop("P54", "Pacts read, changed and written through the C functions stay what they are",
  "Each part of a pact read through the C functions and iterators is what the pact has, each item once and in order, and nothing after the last. Setting a part of an interaction changes that part only, keeps its own copy of what was given, and interactions outlive the pact they were read from; what can not be understood returns failure and changes nothing.",
  ["inputs", "histories"], "All pacts of every version, and all sequences of the functions that set parts of an interaction.",
  "Tests read one or two fields of one small interaction.", [M],
  [("pactffi_*_iter_next, pactffi_*_get_*", M), ("pactffi_*_set_*", M)],
  ["what the C functions return"], "proptest: generated pacts compared with what C functions return; model-based sequences of changes", "Buffers given are overwritten and freed afterwards. Generated values are not compared where a generator applies.", crate="ffi")
prop("P55", "Values are matched, parsed and generated through the C functions as in Rust",
  "Matching rules made through the C functions decide values as the matching library does, and mismatches read through them carry what the library reports. Matcher definitions, dates and regexes are parsed and generated as by the models library, values generated for a regex match it, and the error message is the one of the last failure in whatever buffer is given; invalid ones are refused.",
  ["inputs", "histories"], "All rules, values, matcher definitions, regexes (anchored or not), date formats and buffer sizes.",
  "Tests have a few values of some rules.", ["rust/pact_ffi/src/matching.rs", "rust/pact_ffi/src/lib.rs", M + "expressions.rs", "rust/pact_ffi/src/error/ffi.rs", "rust/pact_ffi/src/util/write.rs", "rust/pact_ffi/src/mock_server/mod.rs"],
  [("pactffi_matches_*_value", "rust/pact_ffi/src/matching.rs"), ("pactffi_mismatches_get_iter, pactffi_mismatch_*", "rust/pact_ffi/src/lib.rs"), ("pactffi_parse_matcher_definition", M + "expressions.rs"), ("pactffi_get_error_message", "rust/pact_ffi/src/error/ffi.rs"), ("pactffi_generate_regex_value, pactffi_generate_datetime_string", "rust/pact_ffi/src/mock_server/mod.rs")],
  ["what the C functions return"], "proptest: differential against the matching and models libraries; invariants on generated text", "", crate="ffi")
