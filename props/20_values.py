PM = "rust/pact_models/src/"
G = PM + "generators/"
prop("P19", "Generated values have the form their generator promises",
  "A value generator gives, for an example of any type, a value of the promised form: an integer within the closed range given (any of them can occur), a UUID in the requested format, exactly the requested number of digits or characters, text that matches the regular expression, the mock server's address with the part of the example the expression captures, or the date and time of the base and expression written in the requested format. Where there is no such value (empty range, invalid format or expression, missing address) generation fails with an error: it never panics and never gives another value. Limits and sizes read from JSON never become different smaller numbers.",
  ["inputs"], "All generators, attributes, examples and contexts.",
  "Tests generate a few values with one or two typical attributes each; limits at the edges of the number types, long digit strings, half-anchored expressions and examples of other types are not sampled.",
  [G + "mod.rs", PM + "json_utils.rs"], [("GenerateValue for u16, String, Vec<String>, Value", G + "mod.rs"), ("generate_decimal / generate_hexadecimal / generate_ascii_string", G + "mod.rs"), ("JsonToNum", PM + "json_utils.rs")],
  ["Generator::generate_value", "Generator::create"], "proptest: invariants over random values, differential against a reference date formatter, regular expression membership",
  "Random draws: the forms are checked for every draw, coverage of small ranges with 400 draws. Regular expressions from a grammar of ASCII literals, classes, groups, alternatives and repetitions.")
prop("P20", "Date and time expressions move the base time by what they say",
  "A date, time or date-time expression of the documented grammar gives the base moved as it says: named bases, next and last units, weekdays and months, hours of the clock, then each addition and subtraction in turn, with calendar arithmetic (a month or year later is the same day, or the last day of a shorter month). A text that is not an expression of the grammar, or whose result cannot be represented, gives an error; none is ignored and none panics. The time of day survives date expressions and the offset of the base is kept.",
  ["inputs"], "All expressions and base times.",
  "Tests evaluate some tens of expressions from one or two fixed dates, so leap days, month ends, midnight and noon, large amounts and malformed tails are not sampled.",
  [G + "datetime_expressions.rs", G + "date_expression_parser.rs", G + "time_expression_parser.rs"], [("execute_date_expression / execute_time_expression / execute_datetime_expression", G + "datetime_expressions.rs"), ("expression parsers", G + "date_expression_parser.rs")],
  ["execute_*_expression"], "proptest: differential against a reference calendar evaluation and a reference grammar", "Expressions with up to three adjustments over fixed offset zones; malformed ones by mutation of valid ones and from the vocabulary.")
prop("P21", "Date and time patterns accept, reject and write what Java's would",
  "A pattern is split into the fields and quoted text it is made of, or rejected when a letter or count has no meaning. A text is valid for the pattern exactly when it has the pattern's text and a value in range for every field, including that the day exists in the month. Text generated with a pattern for any moment is what the pattern describes for that moment, and is valid for the pattern.",
  ["inputs"], "All patterns, all moments and offsets, all texts near the valid ones.",
  "Tests try single patterns with a few values; combinations of fields, quoted text, offsets and boundary values are unbounded.",
  [PM + "time_utils.rs"], [("parse_pattern", PM + "time_utils.rs"), ("validate_datetime / validate_datetime_string", PM + "time_utils.rs"), ("to_chrono_pattern / generate_string", PM + "time_utils.rs")],
  ["parse_pattern, validate_datetime, to_chrono_pattern, generate_string"], "proptest: round trip, differential against a reference of Java's DateTimeFormatter, mutation of valid texts",
  "Every letter and count; separators between fields except in usual compact patterns; the listed known limits of fields without a chrono equivalent are excluded and pinned.")
prop("P22", "Provider state expressions give the values of the provider state",
  "An expression is the concatenation of its literal text and the values of its references in order, or the referenced value itself with its own type when the expression is a single reference; a missing value or an unclosed reference is an error. With a data type the value is converted to that type exactly, as JSON, text, list or status code, whether the values are given directly or nested as provider state. A value without an exact representation in the type is an error: numbers never wrap around or saturate and nothing panics.",
  ["inputs"], "All expressions, sets of values and data types.",
  "Tests evaluate a few expressions with one or two references and convert a few small values; stray braces, adjacent references and values at the limits of the types are not sampled.",
  [PM + "expression_parser.rs", G + "mod.rs"], [("parse_expression", PM + "expression_parser.rs"), ("DataValue::as_json and TryFrom<DataValue>", PM + "expression_parser.rs"), ("generate_value_from_context", G + "mod.rs")],
  ["parse_expression, DataValue, ProviderStateGenerator"], "proptest: differential against a reference evaluation and conversion table",
  "Up to five parts per expression; values of every JSON type and the edges of the number types.")
prop("P23", "Generators change exactly the parts of a body their paths select",
  "Applying a set of generators to a JSON or form body replaces every value selected by a generator's path, in the document or in each matching element of an array with variants, with a value of that generator, and leaves every other value, name and order as it was. A generator that belongs to the other side of the test, or that has no value, changes nothing. The resulting body is the text of exactly that document with the right content type.",
  ["inputs"], "All bodies, sets of paths and generators, contexts and modes.",
  "Tests apply one generator to small fixed documents; wildcard paths, names with special characters, repeated form parameters and several generators together are not sampled.",
  [G + "mod.rs", G + "form_urlencoded.rs", PM + "json_utils.rs"], [("JsonHandler::process_body / apply_key", G + "mod.rs"), ("FormUrlEncodedHandler", G + "form_urlencoded.rs"), ("ArrayContains generator", G + "mod.rs")],
  ["ContentTypeHandler::process_body"], "proptest: differential against a reference selection and replacement", "Up to four generators with non-overlapping paths per document of up to 40 values.")
prop("P24", "Paths select exactly the values of a document they denote",
  "Resolving a path in a JSON document gives, in document order, a JSON pointer for each value whose names and indices the path's elements accept (a name or star for objects, an index or index wildcard for arrays) and no other, and each pointer leads to that value whatever characters the names contain. Resolving a path in an XML document gives exactly the elements, attributes and texts it denotes, where an index counts the elements of the same name under the same parent, and each result leads back to that node.",
  ["inputs"], "All documents and paths.",
  "Tests resolve a few paths in two small documents with plain names.",
  [PM + "json_utils.rs", PM + "xml_utils.rs"], [("resolve_path", PM + "json_utils.rs"), ("resolve_path / resolve_matching_node", PM + "xml_utils.rs")],
  ["json_utils::resolve_path", "xml_utils::resolve_path, resolve_matching_node"], "proptest: differential against a reference selection", "Documents of up to 40 values; paths follow the document with wildcards, wrong indices and wrong kinds mixed in.")
