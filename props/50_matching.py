X = "rust/pact_matching/src/"
prop("P28", "Methods, paths and status codes match as the pact says",
  "Methods are compared without case. Paths and status codes are compared for equality unless the pact has rules for them; then the rules decide, one mismatch per failing rule where all must hold, and none where one of several is enough and holds. A status class or list of codes accepts exactly its codes. Each mismatch reports the expected and the actual value.",
  ["inputs"], "All methods, paths, status codes and lists of rules for them, whether built or read from a pact document.",
  "Tests compare a few pairs and one rule at a time.", [X + "lib.rs", X + "matchers.rs"],
  [("match_method, match_path, match_status", X + "lib.rs"), ("match_values; Matches for &str and u16", X + "matchers.rs")],
  ["match_method, match_path, match_status"], "proptest: differential against a reference decision of each rule", "Regular expressions from a small family with a matcher of its own.", crate="matching")
prop("P29", "Query parameters match value by value, and none may be missing or extra",
  "A request's query matches when it has exactly the expected parameters, each with the expected values in order; where the pact has rules for a parameter or for one of its values, the rules decide instead. A parameter that is missing, unexpected or has a value that does not match, and no other, is reported under its own name. A query without parameters is the same as no query.",
  ["inputs"], "All expected and actual queries and rules for them.",
  "Tests compare a few parameters with one or two values; several values of different counts, values without text, wildcards and combined rules are sampled once.", [X + "query.rs", X + "lib.rs", X + "matchers.rs"],
  [("match_query, match_query_maps", X + "query.rs"), ("compare_lists_with_matchingrules", X + "matchingrules.rs")],
  ["match_query"], "proptest: differential against a reference model", "Up to four parameters with up to four values; cases where two different rules apply with the same weight are not judged.", crate="matching")
prop("P30", "Headers match by name without case; parameterised values by their parts",
  "Each expected header must be there under its name in any case, and additional headers are ignored. Values are compared without the white space around them; Accept and Content-Type by media type and by the expected parameters, in any order and with others besides. Where the pact has rules for a header, found by name in any case, the rules decide; exactly the headers that do not match are reported.",
  ["inputs"], "All expected and actual headers and rules for them.",
  "Tests compare a few headers; combinations of several values, parameters in different order, the case of names and rules for values are not sampled.", [X + "headers.rs", X + "lib.rs"],
  [("match_headers, match_header_value, match_parameter_header", X + "headers.rs"), ("HeaderMatchingContext", X + "lib.rs")],
  ["match_headers"], "proptest: differential against a reference model", "Up to four headers with up to four values.", crate="matching")
prop("P31", "JSON bodies without rules match exactly when they are equal",
  "Without matching rules a JSON body matches when the actual document equals the expected one, with additional object members ignored in responses and messages but not in requests. Every place where the two differ is reported, by its path and with both values, and no other. What is not JSON is a mismatch or an error, never a match.",
  ["inputs"], "All pairs of JSON documents, in particular documents that differ in a few places.",
  "Tests compare a few small documents.", [X + "json.rs"], [("match_json, compare_json, compare_maps, compare_lists", X + "json.rs")],
  ["match_json"], "proptest: differential against a reference model, metamorphic edits", "Documents of up to 24 values; the words of the descriptions are not fixed.", crate="matching")
prop("P32", "Each matching rule accepts exactly the values it stands for",
  "For a single value - a JSON value, a text or a number - type, equality, regex, include, null, integer, decimal, number, boolean, notEmpty, semver, date and time rules accept exactly the values they are defined to accept. In a list of rules all must hold, or any one of them where the list says so, and each rule that fails is reported. The decision does not depend on where the value stands.",
  ["inputs"], "All values, all rules, all lists of rules.",
  "Tests try a handful of values for each rule.", [X + "json.rs", X + "matchers.rs", X + "matchingrules.rs"],
  [("Matches for Value", X + "json.rs"), ("Matches for &str, u64, i64, f64, bool", X + "matchers.rs"), ("match_values", X + "matchers.rs")],
  ["match_json, Matches::matches_with"], "proptest: differential against a reference decision of each rule", "Fixed date and time formats here; formats as such are P20. Whole numbers are not paired with equal decimals.", crate="matching")
prop("P33", "A rule governs its path and everything below it, the most specific rule winning",
  "The rules for a value are those of the most specific path in the pact that matches it, wildcards counting less than names and indices; a rule of an enclosing element also governs what is inside it, except that sizes and emptiness are only asked of the element itself. With a rule, lists may differ in length and items beyond the example are compared with its first item. Bodies and V4 message contents follow the same rules.",
  ["inputs"], "All documents, all sets of rules at all their places and wildcards.",
  "Tests have one or two rules per document; the interplay of nested rules, wildcards and lists of different length is not sampled.", [X + "json.rs", X + "matchingrules.rs", X + "lib.rs", "rust/pact_models/src/matchingrules/mod.rs"],
  [("compare_json, compare_maps, compare_lists", X + "json.rs"), ("compare_lists_with_matchingrule, compare_maps_with_matchingrule", X + "matchingrules.rs"), ("CoreMatchingContext::select_best_matcher", X + "lib.rs"), ("MatchingRuleCategory::resolve_matchers_for_path, select_best_matcher", "rust/pact_models/src/matchingrules/mod.rs")],
  ["match_json: the set of reported paths"], "proptest: differential against a reference model of the whole comparison", "Up to four rules per document; cases where two different rules apply with the same weight are not judged.", crate="matching")
prop("P34", "Rules about keys, values and variants of collections hold for every element",
  "With a values or eachValue rule the names of members are free and every value is compared with the example or the given rules; with eachKey every name must satisfy the given rules. An arrayContains rule holds when every variant is matched by some element, under its own rules. A broken element is reported at its place.",
  ["inputs"], "All documents, all such rules at all places, nested.",
  "Tests have one such rule on a small document.", [X + "json.rs", X + "matchingrules.rs", X + "lib.rs"],
  [("compare_maps_with_matchingrule, compare_lists_with_matchingrule, match_array_contains", X + "matchingrules.rs"), ("CoreMatchingContext::match_keys", X + "lib.rs")],
  ["match_json: the set of reported paths"], "proptest: differential against a reference model of the whole comparison", "Variants refer to existing examples.", crate="matching")
prop("P35", "Bodies are only compared when their content types agree",
  "When both content types are known, they must be the same, up to parameters only the actual one has, to the base of an actual type with a suffix, or to a rule for the Content-Type header; else one mismatch names both types. An expected body must be there, an expected empty body must be empty, and where nothing is expected anything is accepted. Contents are then compared as their content type says: as JSON, XML, form, text or bytes.",
  ["inputs"], "All pairs of bodies and content types, declared by a header, by the body itself or found from the contents.",
  "Tests compare a few types.", [X + "lib.rs", "rust/pact_models/src/content_types.rs"],
  [("match_body, match_body_content, compare_bodies_core", X + "lib.rs"), ("ContentType::is_equivalent_to", "rust/pact_models/src/content_types.rs")],
  ["match_body"], "proptest: differential against a reference decision", "Contents from a set of samples with known meaning; an expected body of no bytes is not compared with null.", crate="matching")
prop("P36", "XML bodies match when their elements, attributes and texts do",
  "Without rules two XML documents match when they have the same elements, attributes and texts, whatever the white space between elements, the prefixes of namespaces, the quotes, comments and entities they are written with. With rules the best rule for each element, attribute or text decides, and lists of children may differ in length where a type rule says so. Every difference is reported at its path, and what is not XML is never a match.",
  ["inputs"], "All pairs of XML documents, in particular ones that differ in a few places, and rules for their places.",
  "Tests compare a few small documents, and only with one rule.", [X + "xml.rs"], [("match_xml, compare_element, compare_attributes, compare_children, compare_text", X + "xml.rs")],
  ["match_xml"], "proptest: differential against a reference model, metamorphic rewriting", "Documents of up to about 15 elements; comments only beside elements, since inside texts they divide them; cases where two different rules apply with the same weight are not judged.", crate="matching")
prop("P37", "Form bodies match parameter by parameter",
  "Form bodies match when they have the same parameters with the same values in order, whatever the order of different parameters and the escapes they are written with. Where the pact has rules for a parameter the rules decide instead. A parameter that is missing, unexpected or has a value that does not match, and no other, is reported under its own name.",
  ["inputs"], "All pairs of form bodies and rules for them.",
  "Tests compare a few parameters.", [X + "form_urlencoded.rs"], [("match_form_urlencoded", X + "form_urlencoded.rs"), ("compare_lists_with_matchingrules", X + "matchingrules.rs")],
  ["match_form_urlencoded"], "proptest: differential against a reference model", "Up to four names; cases where two different rules apply with the same weight are not judged.", crate="matching")
prop("P38", "Text and binary bodies match by their bytes or by the rule for the whole",
  "Text and binary bodies without rules match exactly when their bytes are equal. With rules for the whole body the rules decide on the text; a content type rule accepts exactly contents of that type. A mismatch reports both bodies and is never a panic, whatever the bytes.",
  ["inputs"], "All pairs of byte strings, and rules for them.",
  "Tests compare a few texts and images.", [X + "lib.rs", X + "binary_utils.rs", X + "matchers.rs"], [("match_text", X + "lib.rs"), ("match_octet_stream, match_content_type", X + "binary_utils.rs")],
  ["match_body"], "proptest: differential against a reference decision", "Content type rules are judged for a few known kinds of contents.", crate="matching")
prop("P39", "Whole requests and responses match exactly when all their parts do",
  "A request matches when method, path, query, headers and body all match under the rules the pact has for them; a response when status, headers and body do, where additional members are accepted. Each part that does not match, and no other, is reported under its kind, whether the expectation was built or read from a pact of version 2, 3 or 4. Overall result, list of mismatches and score agree with the parts, however many there are, and each mismatch says the same in words, as JSON and in its fields.",
  ["inputs"], "All pairs of interactions and all sets of rules, built or read from a document.",
  "Tests and the specification's cases vary one part at a time.", [X + "lib.rs"],
  [("match_request, match_response, match_interaction", X + "lib.rs"), ("RequestMatchResult: mismatches, score, all_matched", X + "lib.rs"), ("Mismatch: to_json, summary, description", X + "lib.rs")],
  ["match_interaction, match_interaction_request, match_interaction_response, match_request, match_response"], "proptest: differential against reference models of every part, from pact documents", "JSON and plain text bodies here, other bodies are P35 to P38; rules for Content-Type are P35.", crate="matching")
prop("P40", "Messages match when contents and metadata do",
  "A message matches when its contents match, by content type and under the rules for them, and every expected metadata value is there and equal or accepted by its rules; content types in metadata are compared as such and further metadata is ignored. Synchronous messages match when the request and each response do, and a different number of responses is reported. This holds for messages of version 3 and 4, built or read from a pact, and interactions of different kinds never match.",
  ["inputs"], "All pairs of messages and all sets of rules, built or read from a document.",
  "There is a test for a few pairs of messages without rules.", [X + "lib.rs"],
  [("match_message, match_message_contents, match_message_metadata", X + "lib.rs"), ("match_sync_message, match_interaction", X + "lib.rs")],
  ["match_message, match_sync_message, match_interaction"], "proptest: differential against reference models", "Metadata names are plain words; a content type of the contents and one in the metadata are not given together.", crate="matching")
prop("P41", "Generators change exactly the parts they are for, and what they give matches",
  "Applying generators to a request, response or message sets each path, status, header, query parameter, metadata value and place in a body that has a generator with a value in this mode, and leaves everything else as it was: other values, bodies that cannot be read, content types, rules. Headers are found by name in any case. What is generated satisfies the rules that go with the generators.",
  ["inputs"], "All requests, responses and messages, all sets of generators, both modes.",
  "Tests apply one generator to one part.", [X + "lib.rs", X + "generators/mod.rs", X + "generators/bodies.rs"],
  [("generate_request, generate_response", X + "lib.rs"), ("generate_message, apply_generators_to_async_message, apply_generators_to_sync_message", X + "generators/mod.rs"), ("generators_process_body", X + "generators/bodies.rs")],
  ["generate_request, generate_response, generate_message, match_interaction of what they give"], "proptest: differential against a reference model, metamorphic: generate then match", "Generators with a known value, except where only the match is checked; places that do not overlap.", crate="matching")
