PM = "rust/pact_models/src/"
prop("P05", "Pact documents load according to the specification version they declare",
  "The specification version in a pact's metadata (under its old or new key) decides how the document is loaded: V4 documents as V4 pacts, documents with messages as message pacts, all others as request/response pacts of that version, documents without or with an unknown version like V3. Missing names and descriptions get their defaults, ids and interaction order are kept. Values that are no pact, V4 interactions of no known type, and messages in versions before V3 are errors.",
  ["inputs"], "All documents over every version text, metadata shape and interaction list.",
  "Tests load fixed files for each version; they do not vary version texts, metadata shapes and missing parts.",
  [PM + "pact.rs", PM + "lib.rs", PM + "sync_pact.rs", PM + "message_pact.rs", PM + "v4/pact.rs", PM + "v4/interaction.rs", PM + "interaction.rs"],
  [("load_pact_from_json", PM + "pact.rs"), ("determine_spec_version / parse_meta_data", PM + "pact.rs"), ("PactSpecification::parse_version", PM + "lib.rs"), ("interactions_from_json", PM + "v4/interaction.rs")],
  ["load_pact_from_json, determine_spec_version, PactSpecification, http_interaction_from_json, message_interaction_from_json"], "proptest: model of the dispatch over generated documents",
  "Version texts are plain numbers of one to three parts or clearly not versions.")
prop("P06", "Converting pacts between versions keeps the content both can express",
  "A V3 pact or message converted to V4 (directly, or by writing it as V4 and loading it) and back to V3 has the same content, and every view of an interaction as another type agrees with it. A V4 pact of one interaction type downgrades to the request/response or message form with every interaction, id, state, part, rule, generator and object-valued metadata entry kept; mixed pacts and synchronous messages, and messages in versions before V3, are refused with an error. Interactions can only be added to pacts that can hold them, and plugin data only to V4 pacts.",
  ["inputs", "histories"], "All pacts of every version and interaction type, and sequences of additions to them.",
  "Tests convert single default interactions; they never compose the conversions with writing and loading.",
  [PM + "sync_interaction.rs", PM + "message.rs", PM + "v4/async_message.rs", PM + "v4/synch_http.rs", PM + "v4/pact.rs", PM + "sync_pact.rs", PM + "message_pact.rs", PM + "interaction.rs", PM + "plugins.rs"],
  [("as_v4_pact / as_request_response_pact / as_message_pact", PM + "v4/pact.rs"), ("Interaction::as_*", PM + "interaction.rs"), ("V4Pact::to_json for older versions", PM + "v4/pact.rs"), ("add_plugin", PM + "plugins.rs")],
  ["Pact and Interaction trait conversions"], "proptest: round trip and agreement of views over generated pacts",
  "Random pacts of up to three interactions per type.")
prop("P07", "Merging two pacts keeps every interaction exactly once",
  "Merging two pacts of the same consumer and provider gives every interaction of either exactly once and whole, in order of description and provider states, whatever order the pacts list them in; merging the same pact again changes nothing. Interactions are the same when description, provider states and type (or both V4 keys) are; of two same interactions a V4 merge keeps the receiving pact's and a V3 merge the other's, and V4 plugin data is combined by name and version. Pacts of different names, HTTP interactions that are the same but differ in method, path, query or status, and mixtures of messages and requests are refused in V3.",
  ["inputs", "histories"], "All pairs of pacts over every overlap, order, key assignment and conflict.",
  "Tests merge lists of one or two interactions in sorted order.",
  [PM + "sync_pact.rs", PM + "message_pact.rs", PM + "v4/pact.rs", PM + "sync_interaction.rs", PM + "plugins.rs", PM + "iterator_utils.rs"],
  [("ReadWritePact::merge", PM + "sync_pact.rs"), ("ReadWritePact::merge", PM + "v4/pact.rs"), ("conflicts_with", PM + "sync_interaction.rs")],
  ["ReadWritePact::merge"], "proptest: reference model of the merge over generated pairs of pacts",
  "Up to five interactions per pact over a small space of descriptions, states, types and keys.")
