PM = "rust/pact_models/src/"
prop("P17", "Matching rule definitions mean what their text says",
  "Every definition of the documented grammar (matching with each type of rule, references, notEmpty, eachKey, eachValue, atLeast, atMost, values from provider states, several definitions in a row, any white space, any escape sequence) is read as exactly the example value, value type, rules and generator it states, the first value and generator and the strongest value type winning when several are given. A text that is not of the grammar - a word missing, misspelled or superfluous anywhere, or the text cut short - is an error and never a part of what was meant. A valid definition is recognised as a definition.",
  ["inputs"], "All definitions and all texts near them.",
  "Tests read a dozen definitions with plain strings and small numbers; escapes at the end of strings, numbers of several digits, nested and repeated definitions and malformed tails are not sampled.",
  [PM + "matchingrules/expressions.rs"], [("parse_matcher_def / is_matcher_def", PM + "matchingrules/expressions.rs"), ("MatchingRuleDefinition::merge, ValueType::merge", PM + "matchingrules/expressions.rs"), ("process_raw_string", PM + "matchingrules/expressions.rs")],
  ["parse_matcher_def, is_matcher_def"], "proptest: differential against the meaning of a generated syntax tree, mutation of valid texts",
  "Definitions nested to three levels, up to three in a row; the quote in strings as a Unicode escape.")
prop("P25", "Malformed input gives an error or a default, never a panic",
  "Whatever a JSON document holds, loading it as a pact, interaction, request, response, set of rules or generators, or checking its format, gives a value or an error; and whatever is loaded can be inspected, converted, merged and written in every version, giving a value or an error. Whatever a text holds, reading it as a path, query, header, content type, date expression, date pattern, matching definition, provider state expression or XML gives a value or an error.",
  ["inputs", "faults"], "All JSON documents and texts, in particular damaged pact documents.",
  "Tests load a few malformed documents; damage at every node of every kind of document, and what happens to a partly understood document afterwards, is not sampled.",
  [PM + "pact.rs", PM + "sync_pact.rs", PM + "message_pact.rs", PM + "v4/pact.rs", PM + "v4/interaction.rs", PM + "matchingrules/mod.rs", PM + "generators/mod.rs", PM + "json_utils.rs", PM + "query_strings.rs", PM + "path_exp.rs"],
  [("load_pact_from_json", PM + "pact.rs"), ("MatchingRule::from_json / create", PM + "matchingrules/mod.rs"), ("Generator::from_map", PM + "generators/mod.rs"), ("the text parsers", PM + "path_exp.rs")],
  ["absence of panics, arithmetic overflow included"], "proptest: mutation fuzzing of generated valid documents and texts, invariant: no panic",
  "One to four damaged nodes per document; the build has overflow checks; memory use is not bounded.")
prop("P26", "Deep merging of JSON keeps every value of both documents",
  "Merging a document into another keeps the members of both objects at every depth, joins lists in order, and takes the later value where the two differ otherwise; merging is associative where no value changes its type, and merging with nothing changes nothing. The configuration of a plugin collects what is merged into it and survives its JSON form. A JSON value read as text, count or number of a given size is that value, limited to the size, or the default.",
  ["inputs"], "All pairs and triples of documents; all JSON values.",
  "Tests merge two small documents.", [PM + "json_utils.rs", PM + "plugins.rs"], [("json_deep_merge", PM + "json_utils.rs"), ("PluginData::merge", PM + "plugins.rs"), ("JsonToNum, json_to_num, json_to_string", PM + "json_utils.rs")],
  ["json_deep_merge, PluginData, JsonToNum"], "proptest: differential against a reference merge, algebraic laws", "Documents of up to 24 values over three names, so that they meet.")
prop("P27", "Format verification reports exactly what is wrong with a pact document",
  "Checking the format of a document the library wrote reports nothing but an empty list of interactions. When one thing is wrong in a request/response document - a part missing, of the wrong type, unknown, deprecated or an invalid version - exactly that is reported: at the place of the part, as an error or as a warning where it is tolerated outside strict mode, with the type that was found.",
  ["inputs"], "All written documents; every single kind of damage at every place.",
  "Only the result of a few functions is used in tests; nothing checks that written documents pass or that each kind of damage is found at its place.",
  [PM + "verify_json.rs", PM + "sync_pact.rs", PM + "sync_interaction.rs", PM + "provider_states.rs", PM + "pact.rs", PM + "lib.rs"], [("PactJsonVerifier for RequestResponsePact, RequestResponseInteraction, ProviderState, Consumer, Provider", PM + "verify_json.rs"), ("verify_metadata", PM + "pact.rs")],
  ["PactJsonVerifier::verify_json"], "proptest: generated valid documents with one generated fault, exact expected report", "One fault per document; the code says nothing about the inside of requests and responses.")
