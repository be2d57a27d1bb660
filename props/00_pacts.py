PM = "rust/pact_models/src/"
prop("P01", "A V4 pact written as JSON reads back with the same content",
  "Every V4 interaction (HTTP, asynchronous message, synchronous message) and every V4 pact has the documented JSON form, and loading that form gives back the same content: key, description, provider states with parameters, method, path, query, headers, status, metadata, bodies with content type and hint, matching rules, generators, comments (except empty ones), pending flag, plugin configuration and data, markup, transport and pact metadata. Writing the loaded pact again gives the same document.",
  ["inputs"], "All V4 pacts over every interaction type and any combination of optional parts, body kinds and content types.",
  "Unit tests write or load single hand-made interactions; they do not combine body kinds with content types, hints and the place the type is declared, nor compose writing and loading.",
  [PM + "v4/synch_http.rs", PM + "v4/async_message.rs", PM + "v4/sync_message.rs", PM + "v4/http_parts.rs", PM + "v4/message_parts.rs", PM + "v4/pact.rs", PM + "v4/interaction.rs", PM + "bodies.rs", PM + "json_utils.rs"],
  [("to_json / interaction_from_json", PM + "v4/interaction.rs"), ("OptionalBody::to_v4_json / body_from_json", PM + "json_utils.rs"), ("V4Pact::to_json / pact_from_json", PM + "v4/pact.rs")],
  ["V4Interaction::to_json, interaction_from_json, Pact::to_json, load_pact_from_json"], "proptest: round trip and differential against a reference serialiser",
  "Random interactions and pacts with up to three interactions; body texts null and \"\" under a JSON type are pinned findings.")
prop("P02", "V1 to V3 pacts and messages written as JSON read back the same",
  "Every request/response pact written in V1, V1.1, V2 or V3 form and every message pact in V3 form has the documented JSON shape and reads back with the same content, within what that version can express: description, provider states, method, path, query, headers, status, message metadata, body bytes, matching rules, generators, pact metadata and specification version. Writing the loaded pact again gives the same document, and messages cannot be written in versions before V3.",
  ["inputs"], "All pacts a V1, V1.1, V2 or V3 document can express.",
  "Unit tests load fixed documents or write fixed structs; the combination of body content, declared type, encoding and version is not sampled.",
  [PM + "sync_pact.rs", PM + "sync_interaction.rs", PM + "request.rs", PM + "response.rs", PM + "message.rs", PM + "message_pact.rs", PM + "query_strings.rs", PM + "headers.rs", PM + "json_utils.rs"],
  [("Request/Response to_json and from_json", PM + "request.rs"), ("Message::to_json / from_json", PM + "message.rs"), ("body_from_json", PM + "json_utils.rs")],
  ["Pact::to_json, load_pact_from_json"], "proptest: round trip and differential against a reference serialiser",
  "Random pacts of up to three interactions per version; body content whose older form is ambiguous is excluded and pinned as findings.")
