V = "rust/pact_verifier/src/"
prop("P42", "Verification succeeds exactly when the provider answers every request as agreed",
  "An interaction passes when the provider's response matches the expected one under the pact's rules, and fails otherwise or when the provider cannot be reached; the whole verification succeeds exactly when no interaction that counts has failed. Failures of pending interactions or pacts are reported as such but do not fail the verification. Errors, mismatches, the output, the JSON form and the metrics all name the same interactions with the same outcome, in the order of the pacts.",
  ["inputs", "histories"], "All pacts, all answers of a provider, right or wrong in status, headers or body, or none, for any of the interactions.",
  "Tests verify one or two interactions against a provider that answers right, or wrong in one way.", [V + "lib.rs", V + "verification_result.rs", V + "request_response.rs"],
  [("verify_provider_async", V + "lib.rs"), ("verify_pact_internal, process_errors", V + "lib.rs"), ("VerificationExecutionResult, VerificationMismatchResult", V + "verification_result.rs"), ("process_request_response_result", V + "request_response.rs")],
  ["verify_provider_async: result, errors, output, interaction results"], "proptest: generated pacts and a provider played by the check, verdicts known by construction", "Up to three pacts of versions 2 to 4 with up to four interactions; the provider answers through a stand-in for the HTTP client.", crate="verifier")
prop("P43", "The provider gets exactly the request of the interaction",
  "For each interaction the provider gets one request with the method, path, query, headers and body of the pact, at the address of the transport the interaction names or of the provider, with custom headers replacing those of the same name in any case. A request filter sees that request and what it returns is sent. Values the provider states return are put where generators ask for them.",
  ["inputs"], "All requests a pact can hold, all transports, ports, base paths, custom headers, filters and values of states.",
  "Tests send a few requests, mostly with plain ASCII values, without base paths and transports.", [V + "provider_client.rs", V + "lib.rs"],
  [("make_provider_request, create_native_request, join_paths", V + "provider_client.rs"), ("verify_interaction_using_transport, setup_custom_headers", V + "lib.rs"), ("RequestFilterExecutor", V + "callback_executors.rs")],
  ["requests received by the provider"], "proptest: differential against the generated pact, requests recorded", "Paths without dot segments, query or fragment characters.", crate="verifier")
prop("P44", "Provider states are set up and torn down around each interaction, in order",
  "Before an interaction every one of its provider states is set up in order, each with its parameters, by a request or callback to the state handler, in the body or as query parameters as configured; after it they are torn down if that is asked for, and only then. A failed setup fails the interaction without calling the provider; failing handlers are asked again up to the configured number of times. Values returned are available to that interaction's generators.",
  ["inputs", "histories"], "All pacts with provider states, all answers of the state handler including failures and retries.",
  "Tests set up one state once; sequences of states, retries, teardown and failures in between are not sampled.", [V + "callback_executors.rs", V + "lib.rs", V + "provider_client.rs"],
  [("execute_provider_states, execute_state_change", V + "lib.rs"), ("HttpRequestProviderStateExecutor", V + "callback_executors.rs"), ("make_state_change_request", V + "provider_client.rs")],
  ["calls of the state handler and of the provider, in order"], "proptest: model of the history of calls, failures injected at each of them", "Parameters named state or action are not generated; virtual time for the pauses between attempts.", crate="verifier")
prop("P45", "Filters select exactly the interactions they describe",
  "Only interactions whose description and provider state match the given patterns, and only pacts of the given consumers and provider, are verified; an empty state pattern selects interactions without states. Every selected interaction is verified once, none that is not selected causes a request, and the results name exactly those.",
  ["inputs"], "All pacts, all filters on descriptions, states and consumers.",
  "Tests try each kind of filter once.", [V + "lib.rs"], [("FilterInfo, filter_interaction, filter_consumers", V + "lib.rs"), ("verify_pact_internal", V + "lib.rs")],
  ["requests received by the provider, interaction results"], "proptest: differential against a reference selection", "Patterns from a small family with the same meaning in every engine.", crate="verifier")
prop("P46", "Every pact at the given places is verified; unreadable places are errors",
  "Files, directories with all their sub-directories, texts, URLs and brokers each give all their pacts for the provider, and all are verified. From a broker these are the pacts it lists for the provider or for the selectors given, fetched with the given credentials by following its links, and notices it gives are shown with the pact and returned for the outcome they are for. What cannot be read, found or understood makes the verification fail and does not keep others from being verified; that there are no pacts is an error only when it is asked to be.",
  ["inputs", "faults"], "All combinations of places, trees of files, pages and links of a broker, and failures of any of its answers.",
  "Tests fetch one or two documents from a broker that answers as it should.", [V + "lib.rs", V + "pact_broker.rs", V + "selectors.rs"],
  [("fetch_pact, fetch_pacts, walkdir, process_notices", V + "lib.rs"), ("HALClient: navigate, fetch, parse_link_url", V + "pact_broker.rs"), ("fetch_pacts_from_broker, fetch_pacts_dynamically_from_broker", V + "pact_broker.rs")],
  ["requests received by the broker, interaction results, notices"], "proptest: generated broker played by the check, with injected faults, against a model", "Links are absolute; provider and tag names are not only dots.", crate="verifier")
prop("P47", "Published results say what happened, for the version, tags and branch given",
  "When publishing is asked for, each verified pact from a broker gets one result at its own link, successful exactly when all its interactions passed, with the provider version, build address and one entry per interaction with the differences found. The version's tags and branch are published before, under the provider. Nothing is published otherwise, and a broker that refuses them does not change the outcome of the verification.",
  ["inputs", "faults"], "All outcomes, options for publishing, and failures of the broker's answers.",
  "Tests publish one result with and without an error.", [V + "lib.rs", V + "pact_broker.rs"],
  [("publish_result, publish_to_broker", V + "lib.rs"), ("publish_verification_results, build_payload, publish_provider_tags, publish_provider_branch", V + "pact_broker.rs")],
  ["requests received by the broker"], "proptest: generated broker played by the check, with injected faults, against a model of the payload", "Test results of interactions without an id are judged loosely.", crate="verifier")
prop("P48", "Messages are verified with what the provider gives for their description",
  "For a message the provider is asked by description and states, and the contents and the metadata it returns, in the Pact-Message-Metadata header, are compared with the pact's under its rules; for a synchronous message the request is sent and the response compared with those expected. The verdict is that comparison, and messages, synchronous messages and HTTP interactions of one pact are each verified in their own way.",
  ["inputs"], "All pacts with messages, all answers of a provider.",
  "Tests verify two messages with JSON contents.", [V + "messages.rs", V + "lib.rs"],
  [("verify_message_from_provider, verify_sync_message_from_provider, extract_metadata", V + "messages.rs"), ("process_message_result, process_sync_message_result", V + "messages.rs"), ("verify_interaction_using_transport", V + "lib.rs")],
  ["requests received by the provider, interaction results"], "proptest: generated pacts and a provider played by the check, verdicts known by construction", "Rules for messages are P40; answers have status 200.", crate="verifier")
