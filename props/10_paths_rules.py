PM = "rust/pact_models/src/"
prop("P13", "Path expressions print, parse and compose without losing a token",
  "For every sequence of path elements, printing it as a path expression and parsing that text gives the same elements back, and every way of building the path (pushing, joining, appending a path, dropping, taking the parent) gives the path those elements describe. The parser accepts exactly the texts of the documented grammar, and rejects every other text with an error, never a crash. The JSON pointer of a concrete path addresses the element the path describes.",
  ["inputs"], "All token lists (names of any characters, any index, wildcards) and all texts near the grammar.",
  "Unit tests print and parse a few dozen hand-written paths; they contain no name with both a quote and a reparse, no huge index, and no composition of operations.",
  [PM + "path_exp.rs"], [("parse_path_exp", PM + "path_exp.rs"), ("write_obj_key_for_path / build_expr", PM + "path_exp.rs"), ("push/join/drop/parent", PM + "path_exp.rs")],
  ["DocPath public API"], "proptest: round trip, differential against a reference recogniser/printer, algebraic laws",
  "Random token lists, damaged expressions and grammar soup against an independent recogniser and printer; field names are non-empty.")
prop("P14", "A path expression matches exactly the concrete paths it describes",
  "A path expression matches a concrete path exactly when the concrete path is at least as long and every element of the expression accepts the element at the same position (a name or index accepts itself, an index wildcard any index, a star anything). The reported weight is the product over its elements of two for an exact match and one for a wildcard, so replacing an element by a wildcard never stops a match and never raises the weight, and exact matching additionally requires equal lengths.",
  ["inputs"], "All pairs of path expression and concrete path.",
  "Tests try some twenty expression/path pairs; the relation is over all pairs, including prefix matches, numeric names and star versus index wildcards.",
  [PM + "path_exp.rs"], [("path_weight / matches_token", PM + "path_exp.rs")], ["path_weight, matches_path, matches_path_exactly"],
  "proptest: differential against a reference weight function, metamorphic generalisation laws", "Random aligned and unaligned pairs over a small vocabulary plus arbitrary names.")
prop("P15", "The most specific matching rules are selected, deterministically",
  "For any set of matching rules and any concrete path, rules are found exactly when some rule's path matches, the ones selected belong to a matching rule path with the greatest weight times length, and they are marked as cascaded exactly when that rule path is shorter than the concrete path (for bodies and metadata). The selection depends only on the rules and the path: not on the order the rules were added in, nor on hash order. Rules of categories without paths (method, path, status) always apply.",
  ["inputs", "histories"], "All rule sets, insertion orders and concrete paths.",
  "Tests select among two or three rules with one clear winner; ties, wildcards against prefixes and construction order are not sampled.",
  [PM + "matchingrules/mod.rs"], [("select_best_matcher / max_by_path", PM + "matchingrules/mod.rs"), ("resolve_matchers_for_path", PM + "matchingrules/mod.rs")],
  ["MatchingRuleCategory, MatchingRules selection functions"], "proptest: differential against a reference selection, order-independence",
  "Rule sets of up to 7 paths over a small vocabulary, rebuilt in different orders and hash states.")
prop("P16", "Matching rules survive every serialised form",
  "Every matching rule, rule list and rule set written in the form of a specification version (V3/V4; V2 and earlier for single rules) has the documented JSON shape and reads back with the same categories, paths, combination logic, rules and attributes. Older spellings of rules load as the rule they stand for, malformed rules are rejected, and a rule can be rebuilt from its name and values. Merging, renaming and de-duplicating rule sets neither lose nor invent a rule, and two rule sets are equal exactly when their content is.",
  ["inputs"], "All rule sets over every rule kind, category, path and attribute value.",
  "Tests serialise a handful of rule sets; the combinations of rule kind, nesting, category and path syntax are unbounded.",
  [PM + "matchingrules/mod.rs", PM + "lib.rs"], [("MatchingRule::to_json/from_json/create/values", PM + "matchingrules/mod.rs"), ("matchers_to_json/matchers_from_json", PM + "matchingrules/mod.rs")],
  ["matchers_to_json, matchers_from_json, MatchingRule API"], "proptest: round trip and differential against a reference serialiser",
  "Every rule kind nested up to two levels; rule lists non-empty; header/query rules keyed by field.")
prop("P18", "Generators survive every serialised form",
  "Every value generator and every set of generators written as V3/V4 JSON has the documented shape and reads back with the same category, path, kind and attributes; a generator can be rebuilt from its name and values. Nothing is written for versions before V3. Combining two sets keeps every generator, the added one winning for the same category and path, and two sets are equal exactly when their content is.",
  ["inputs"], "All generator sets over every kind, category, path and attribute value.",
  "Tests serialise single examples of some generators.",
  [PM + "generators/mod.rs"], [("Generator::to_json/from_map/values", PM + "generators/mod.rs"), ("Generators::to_json/load_from_map", PM + "generators/mod.rs")],
  ["generators_to_json, generators_from_json, Generator API"], "proptest: round trip and differential against a reference serialiser",
  "Every generator kind that has a JSON form with random attributes over all categories.")
