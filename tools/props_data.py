TODO = "no check built yet"
prop("C01", "Document paths survive printing and parsing",
 "For every document path, however it was built (from the root by pushing or joining steps, appending another path, taking the parent or dropping steps, or from a list of steps), with non-empty field names, printing it and parsing the text gives the same steps. Each building operation adds or replaces exactly the step it names, and field names may hold any characters, including quotes, backslashes, dots, brackets and non-ASCII text.",
 "all sequences of path-building operations and all field names, indexes and wildcards", "The tests parse and print a handful of fixed expressions; field names with quotes and backslashes and the many op sequences are never combined.",
 [PM+"path_exp.rs"], [("write_obj_key_for_path, build_expr, push*, join*, parent, drop", PM+"path_exp.rs"), ("parse_path_exp", PM+"path_exp.rs")],
 state=[("DocPath.path_tokens/expr", "the steps and the text that must denote them", PM+"path_exp.rs")],
 units=["path_ops", "path_parse"], theorems=["theorem_round_trip", "theorem_append"],
 note="Proof: every path operation keeps the invariant parse(text) = steps for all inputs, parser proved equal to the grammar function. Trusted: regex IDENT/ESCAPE behaviour (pinned by text), std char classes and integer parsing, String/Vec std contracts. Driver repeats it on the real code.")
prop("C02", "Parsing a path expression is total and yields well-formed paths",
 "Parsing any text as a path expression returns: it never panics and never loops. When it succeeds, the path is empty only for the empty text, otherwise it starts with the root step, holds no other root step and no empty field name, keeps the text it was parsed from, and its steps are exactly the ones written (fields after a dot or in quotes with escapes undone, indexes, star, star index).",
 "all character strings", "The tests sample about thirty expressions; malformed tails, huge or non-ASCII digits and unterminated quotes are inputs no one listed.",
 [PM+"path_exp.rs"], [("parse_path_exp, path_exp, bracket_path, index_path, string_path, identifier", PM+"path_exp.rs")],
 units=["path_parse"], theorems=["theorem_parse_wf"],
 note="Proof: every parser function equals a total grammar function, no panic site reachable, loops terminate. Trusted: Peekable/Chars/Enumerate, usize::from_str, is_alphabetic/is_numeric on ASCII.")
prop("C03", "Path weight decides which document paths match",
 "A path expression matches a document path exactly when it is no longer than the document path and every step matches the element at its position: the root `$`, a field the same name, an index the same number, star anything, star-index `[*]` or a number. Its weight is the product over its steps of 2 for an exact step and 1 for a wildcard, 0 when any step fails, and never overflows or panics however long the path is; so replacing an exact step by a wildcard never raises the weight.",
 "all path expressions and all document paths", "The tests check short fixed pairs; weights of long paths and the interplay of step kinds are unbounded.",
 [PM+"path_exp.rs"], [("path_weight, matches_token, matches_path, matches_path_exactly", PM+"path_exp.rs")],
 units=["path_weight"], theorems=["theorem_positive", "theorem_exact_beats_wildcard"],
 note="Proof of path_weight = saturating product of step weights for all inputs and all lengths. Trusted: usize::from_str, str equality.")
MR = PM + "matchingrules/mod.rs"
prop("C04", "The same, most specific matching rules are selected for a path",
 "For a body or metadata category and a document path, the rules selected are those of the entry whose path expression matches with the greatest weight times number of steps, and equal scores are settled by the path text, so equal categories always select the same rules whatever the hash order. They are flagged as cascaded exactly when the expression is shorter than the document path, and the empty And list is returned when no entry matches. For other collection categories (headers, query, contents) only entries whose expression matches are considered, for method, path and status all are, and of those the first by path text is used; a matcher (type matcher, wildcard matcher) is reported as defined for a category and path exactly when such an entry exists in that category.",
 "all categories of rules and all document paths, and every iteration order of the map", "Tests hold two or three entries whose weights differ; ties and hash-order dependence only show over many runs and inputs.",
 [MR, PM+"path_exp.rs"], [("select_best_matcher, max_by_path, resolve_matchers_for_path, as_rule_list, filter, matcher_is_defined", MR), ("path_weight", PM+"path_exp.rs")], over=("inputs", "schedules"),
 units=["rules_ops"], theorems=["theorem_best_unique", "theorem_first_unique"],
 note="Proof: selection equals the unique best entry for every map content and every iteration order. Trusted: HashMap contract (keys identified by path text), total order of str, derived Clone.", assumptions=["log macros are dropped", "iterator chains are rewritten to the loops they denote (tools/vx %chain)"])
prop("C05", "Adding and merging matching rules never loses or reorders a rule",
 "Adding a rule appends it to the list at its path, keeping that list's And/Or logic, or starts a list with the given logic. Adding one category (or a whole rule set) to another gives, for every category and path, the rules already there followed by the added ones in their order, keeping the logic of the list already there; all other entries, the added rules and category names are unchanged, and renaming a category moves its rules the same way. Merging with nothing changes nothing and merging is associative. Removing duplicates keeps the first of each distinct rule in order, and the predicates (empty, type matcher, values matcher, cascading) answer exactly for the rules held.",
 "all rule lists, categories and rule sets and every sequence of add, merge and rename", "Tests merge one or two fixed sets; overlapping categories, equal paths and the order of rules are only sampled.",
 [MR], [("RuleList::add_rule, add_rules, and_rules, remove_duplicates", MR), ("MatchingRuleCategory::add_rule, add_rules, rename", MR), ("MatchingRules::add_category, add_rules, merge, rename", MR)], over=("inputs", "histories"),
 units=["rules_merge"], theorems=["theorem_merge_unit", "theorem_merge_assoc", "theorem_merge_keeps"],
 note="Proof of add/merge/rename/predicates over the map view for all contents and iteration orders; remove_duplicates and RuleList::filter only by the driver (itertools). Trusted: HashMap contract, derived Clone, entry().or_insert_with.", bounded="RuleList::remove_duplicates, RuleList::filter: driver only", assumptions=["log macros are dropped", "generic S: Into<Category> stands for a conversion with a fixed result"])
QS = PM + "query_strings.rs"
prop("C06", "Query strings survive encoding, decoding and both JSON forms",
 "Decoding a query text replaces each `%xx` by that byte and `+` by a space, leaves anything else as it is, and fails only when the bytes are not UTF-8; it never panics. Encoding any ASCII value gives a text of letters, digits, `-`, `+` and `%xx` escapes that decodes to the value, so no value can add or split parameters. Query parameters built into a V2 query text come out sorted by name with each name's values in order, and parsing that text gives the same parameters, including names with non-ASCII or structural characters, repeated names, values with `=`/`&`/`%`, and parameters without a value; the V3/V4 JSON form (an object of lists, null for no value) reads back to the same parameters, and the V2 form reads back through the text.",
 "all query texts, all parameter names, all ASCII values and every map iteration order", "The tests encode about ten fixed values; which characters need escaping, truncated escapes and names with structural characters are never combined.",
 [QS], [("decode_query, encode_query, encode_name", QS), ("parse_query_string, build_query_string, query_from_json, v3_query_from_json, query_to_json", QS)],
 units=["query"], theorems=["theorem_value_round_trip", "theorem_name_round_trip", "theorem_no_structure"],
 note="Proof: decode_query, encode_query (ASCII), encode_name and parse_query_string equal their specification for all texts, and the round trips follow. build_query_string and the JSON forms only by the driver. Trusted: str::split/splitn, hex, from_utf8, HashMap.", bounded="build_query_string, query_to_json, query_from_json, v3_query_from_json: driver only")
GM = PM + "generators/mod.rs"; V4 = PM + "v4/"
prop("C11", "Equality, hashes and keys do not depend on order; equal means equal hash",
 "For matching rules, rule lists, categories, rule sets, generators, provider states, bodies, requests, responses, message contents and V4 interactions: two values are equal exactly when every part that is compared is equal (all parts, except that empty categories, how rules were cascaded, the content type of a body, the case of a V4 request method, and the id, comments, markup, transport and plugin configuration of an interaction do not count), `!=` is always the opposite of `==`, equality is an equivalence, and equal values hash the same, whatever order their maps were filled in. The calculated key of a V4 interaction is a function of its description, provider states, pending flag and request, response or contents with rules and generators, changes when one of those changes, and is the same on every run, for equal interactions, whatever key is set, and when calculated twice; setting it changes nothing else, and the unique key is the key that is set, else the calculated one.",
 "all values of these types, all pairs of them, and every iteration order of every map in them", "Tests compare a few fixed values with one-entry maps; hash-order dependence and asymmetric cases need maps with several entries and many pairs.",
 [MR, GM, PM+"provider_states.rs", PM+"bodies.rs", V4+"http_parts.rs", V4+"message_parts.rs"],
 [("PartialEq and Hash for MatchingRule, RuleList, MatchingRuleCategory, MatchingRules", MR), ("PartialEq and Hash for Generator, Generators", GM), ("PartialEq and Hash for ProviderState, hash_json", PM+"provider_states.rs"), ("PartialEq and Hash for HttpRequest, HttpResponse, MessageContents, Request, Response", V4+"http_parts.rs"), ("calc_hash, with_key, unique_key", V4+"synch_http.rs")], over=("inputs", "schedules"),
 units=["eq_rule", "eq_gen", "eq_sets", "eq_parts"], theorems=["theorem_hash_respects_eq", "theorem_key_synchronoushttp", "theorem_key_synchronousmessage", "theorem_key_asynchronousmessage"],
 note="Proof: for each type, eq returns q(a) == q(b) and hash feeds the hasher a function of q alone, for all values and map orders; so equality is an equivalence and equal values hash equally. Parts nested in a type are used through their own contract (proved in another unit). Trusted: std Hash/PartialEq contracts, HashMap contract, sorting, derived impls, DefaultHasher::new() has fixed keys.", assumptions=["the parts of a type (a rule inside a category inside a rule) satisfy the contract proved for them in their own unit: induction on nesting depth", "derived PartialEq, Eq, Hash and Clone mean field by field"])
EP = PM + "expression_parser.rs"
prop("C12", "Expressions are replaced by the provider state values they name",
 "In a text, each `${name}` (from the first `${` to the next `}` after it) is replaced by the value of that name and everything else stays exactly as it is; `${}` is replaced by nothing. A text that is one expression and nothing else yields the value itself with its JSON type; otherwise the parts are joined as text (strings as they are, null as nothing, other values as JSON), and replaced values are not expanded again. A text without `${` is itself when parsed, and names a context entry when a provider state value is generated. An expression that is not closed or names no value is an error, never a panic or a partial text. Provider state generators take their values from the `providerState` object of the context when there is one, and otherwise from the context.",
 "all texts (any characters, any nesting of `$`, `{` and `}`), and all maps of values", "The tests parse a dozen ASCII expressions with one or two names; a brace before an expression, multi-byte text around one and values that look like expressions are not among them.",
 [EP, GM], [("parse_expression, replace_expressions, contains_expressions, MapValueResolver::resolve_value", EP), ("generate_value_from_context, GenerateValue for ProviderStateGenerator", GM)],
 units=["expr", "gen_values"], theorems=["theorem_substitution", "theorem_type_kept"],
 note="Proof: the parser equals the recursive splitting function for all texts and resolvers, no slice or unwrap can panic, the loop terminates. Trusted: str::find and slicing contracts, HashMap, Value printing. The choice of the providerState object is part of the contracts of generate_value (unit gen_values).")
prop("C13", "Generated values convert to the requested type exactly or fail",
 "A value converts to an integer type (u16, u64, i64), to f64, to bool, to JSON of a data type, and to text exactly or with an error: numbers keep their value when the type holds it (decimals lose only the fraction), texts are read in full as the type they are converted to, true and null count as 1 and 0, and anything that does not fit, is not a number or is a list or object is an error; nothing wraps, saturates or panics. As STRING the JSON is the text (or the JSON text of another value), as RAW the value itself; the displayed text is that of the converted value. Data type names are read regardless of ASCII case, unknown ones as RAW, and written names read back.",
 "all JSON values, all data types and all target types", "The tests convert small positive numbers; limits of each type, negative and huge values, NaN and text forms are left out.",
 [EP], [("DataValue::as_json, TryFrom<DataValue> for u16/u64/i64/f64/bool, Display, float_to_int, DataType::from/into/wrap", EP), ("json_to_string", PM+"json_utils.rs")],
 units=["data_value"], theorems=["theorem_data_type_round_trip", "theorem_int_exact", "theorem_json_type"],
 note="Proof: every conversion equals its specification for all values; integers are exact. Trusted: text parsing of numbers (i64/u64/u16 grammar stated, f64 parsing uninterpreted), float truncation, serde_json printing.", assumptions=["f64 operations are uninterpreted: parsing, printing, truncation and sign are named functions of the float"])
prop("C08", "Generators survive writing to and reading from JSON",
 "A generator (other than the internal array variant, which writes nothing) writes to a JSON object holding its type name and exactly the attributes it has, and reads back the same. A numeric attribute that is missing, is not an integer or does not fit takes its default (min 0, max 10, digits and size 10) and never wraps; other attributes given as another JSON type are taken as text; an unknown type or a missing required attribute gives no generator. A set of generators keyed as JSON has them (method, path and status one each, headers and query parameters by any non-empty name, body and metadata by path) writes to V3 and V4 JSON and reads back equal, and earlier versions write nothing. Reading a document takes every entry it can and ignores unknown categories, entries that are not objects and entries with no valid type, without affecting the others; category names are read in any case, and a malformed path is an error. Adding a generator changes its own category and path only.",
 "all generators, all JSON attribute values, all sets, all documents and every map order", "The tests read and write one object per generator type; out-of-range numbers, names that look like paths and several categories together are not tried.",
 [GM, PM+"json_utils.rs"], [("Generator::to_json, from_map, create, UuidFormat", GM), ("Generators::load_from_map, parse_generator_from_map, add_generator, to_json", GM), ("JsonToNum, json_to_string, get_field_as_string", PM+"json_utils.rs")], over=("inputs", "histories"),
 units=["gen_json", "gens_json"], theorems=["theorem_generator_json", "theorem_category_names", "theorem_add"],
 note="Proof: to_json and from_map of one generator equal their specification for all generators and JSON objects and the round trip follows; loading a document equals a fold over its entries. Generators::to_json, values() and add_generators only by the driver. Trusted: serde_json values, to_lowercase on ASCII, DocPath by the contracts proved in C01/C02.", bounded="Generators::to_json, Generator::values, Generators::add_generators: driver only")
HS = PM + "lib.rs"
prop("C09", "A matching rule survives writing to and reading from JSON",
 "A matching rule writes to a JSON object holding its type under `match` and exactly the attributes it has, and reads back the same: every rule type, sizes over the whole 64-bit range, any text, status classes and lists of status codes, each-key and each-value with their value, rules and generator (the value's type and the expression they were parsed from are not kept), and array-contains with its variants, their rules and their generators (those that have a JSON form). The name of a rule and its values create the same rule again (array-contains aside), and its type and attributes do too. Reading a JSON value is total and never panics: only an object is a rule, the type may be given as `match` or `pact:matcher:type` and by any of its names, a missing type is guessed from a regex, min, max, timestamp, time or date attribute, a missing or unusable required attribute, an unknown type, a malformed nested rule or a status code outside 0 to 65535 is an error, and other attributes are ignored or take their default.",
 "all matching rules whose references are resolved, and all JSON values", "The tests write and read one object per rule type; large sizes, nested rules, unusual status codes and wrong attribute types are not tried, and names and values are never fed back.",
 [MR, HS], [("MatchingRule::to_json, from_json, create, name, values, generator_from_json, rules_from_json", MR), ("HttpStatus::to_json, from_json", HS), ("json_to_string, json_to_num", PM+"json_utils.rs")],
 units=["rule_json"], theorems=["theorem_rule_json", "theorem_create"],
 note="Proof: to_json, from_json, create, name and values equal their specification for all rules and JSON values and the round trips follow, one nesting level at a time (rules inside a definition, the category and generators of a variant are used by their own contract). Trusted: serde_json values, str to number parsing, the contracts of DocPath, Generator and MatchingRuleCategory, HashMap.", assumptions=["a rule inside a rule satisfies the contract proved for a rule: induction on nesting depth", "reading the category of a variant is cat_load, an uninterpreted function here: what it does is C10"])
prop("C10", "The matching rules of an interaction survive writing to and reading from JSON",
 "The names of the categories read back as the same category, in any case; `headers` is another name for the headers, and in a document any other name is the body. A set of matching rules keyed as JSON has them (the path with one entry, headers and query parameters by any non-empty name, the other categories by path, at least one rule in each list) writes to V3 and V4 JSON as one entry per non-empty category, holding for each path or name the list of its rules, in order, with its way of combining them, and reads back equal; the entry for the path is the list itself. In V2 and earlier, the path, headers, query and body write one entry per path, with the first rule of its list, and read back with that rule. Reading a document adds every rule it holds, in order, to the category and path or name it is given for, keeping rules and the way of combining that are already there: headers and query entries are names, other entries are paths, `combine` is OR in any case or else AND, a document whose first key starts with `$` is V2. A malformed path or rule or a category that is not an object is an error, and a document without matching rules has none.",
 "all sets of matching rules so keyed whose rules C09 covers, all JSON documents and every map order", "The tests write and read one or two categories with plain names; names that look like paths, several rules at a path, unusual categories and V2 keys that need quoting are not tried.",
 [MR], [("Category::from_str, From, Into, Default, v2_form", MR), ("RuleList::to_json, to_v2_json, RuleLogic::to_json", MR), ("MatchingRuleCategory::to_v3_json, to_v2_json, rule_from_json, add_rule_list, add_rules_from_json, add_v3_rules_from_json", MR), ("MatchingRules::load_from_v3_map, load_from_v2_map, add_v2_rule, to_v3_json, to_v2_json, matchers_from_json, matchers_to_json", MR)], over=("inputs", "histories"),
 units=["cat_json"], theorems=["theorem_category_names", "theorem_list_back", "theorem_category_json", "theorem_matching_rules_json"],
 note="Proof: writing and reading V3/V4 and V2 equal their specification for all sets and documents, and the V3/V4 round trip of a list, a category and a whole set follows. That a V2 key reads back as the path it was written for is checked by the driver only. Trusted: serde_json objects and their iteration order (any fixed order), HashMap, str operations, DocPath by the contracts proved in C01/C02, one rule by the contract proved in C09.", bounded="the V2 round trip: driver only", assumptions=["rj and rfrom, one rule to and from JSON, are uninterpreted here: what they do, and that they are inverse, is C09"])
JU = PM + "json_utils.rs"; HP = V4+"http_parts.rs"; MP = V4+"message_parts.rs"
prop("C19", "Requests, responses and message contents survive their JSON forms",
 "A V4 request, response or message contents with any method, path, query, headers, status, metadata, rules and generators writes to JSON that reads back to the same value, with the method in upper case, a body of exactly the same bytes (JSON bodies the same JSON value), its content type (its own, else that of the headers or metadata, else what the bytes look like) and its content type hint, whatever the bytes are: not empty, not the JSON null or empty string, and with a content type whose text parses back. "
 "A V4 body is written as its content (the JSON value for JSON types, the text for text types unless hinted BINARY, else BASE64), contentType, contentTypeHint and encoded, an empty one as empty content, a missing or null one not at all; any document is read by the same table: content null or a null body is Null, no content or no body Missing, no bytes Empty, `encoded` names the encoding in any case (text that is not valid BASE64 stays as it is), an unknown hint is DEFAULT, a contentType attribute wins over headers. "
 "V1 to V3 requests, responses and messages write header lists joined with commas and bodies as JSON, text or BASE64, and read back the same parts for trimmed header values without commas and bodies that are JSON other than null and strings that look like JSON documents, UTF-8 text of a text type, or any bytes of another type; header values that are texts are split at commas and trimmed except for the nine headers that hold one value, a missing method is GET, a missing path `/`, a missing status 200, a status that is not a number from 0 to 65535 is an error, and no document makes reading panic.",
 "all requests, responses, message contents and bodies as described, all JSON documents, all header maps with at most one content type", "The tests write and read a few fixed requests with one body each; the table of content type, hint, encoding and byte content has combinations no test lists, and headers are ASCII words.",
 [HP, MP, JU, PM+"bodies.rs", PM+"request.rs", PM+"response.rs", PM+"message.rs"], [("HttpRequest and HttpResponse from_json, to_json, content_type; body_from_json, content_type_from_json", HP), ("MessageContents::from_json, to_json, message_content_type, metadata_to_headers", MP), ("OptionalBody::to_v4_json and accessors", PM+"bodies.rs"), ("headers_from_json, headers_to_json, body_from_json", JU), ("parse_header", PM+"headers.rs"), ("Request, Response, Message from_json, to_json", PM+"request.rs"), ("calc_content_type", V4+"mod.rs")],
 units=["bodies", "parts"], theorems=["theorem_hint", "theorem_v4_body", "theorem_headers", "theorem_request", "theorem_response", "theorem_contents"],
 note="Proof: V4 bodies, headers, requests, responses and message contents are written and read exactly as specified, for all values and documents, and the V4 round trips follow as theorems. The V1-V3 forms are checked by the driver against an independent reader and writer. Trusted: serde_json, BASE64 and UTF-8 (axioms: decoding undoes encoding), ContentType parsing and content detection (uninterpreted), str operations.", bounded="V1-V3 requests, responses and messages (json_utils::body_from_json, headers_to_json, Request, Response, Message): driver only", assumptions=["rules, generators and the query are read and written as proved in C10, C08 and C06: uninterpreted here", "the nine headers that are never split are an uninterpreted set in the proof: the driver names them"])
V4I = V4+"interaction.rs"
prop("C20", "Interactions survive their JSON forms",
 "A V4 interaction of each kind (HTTP, asynchronous message, synchronous message) with any key, description, provider states with parameters, comments, pending flag, plugin configuration, markup and transport is written as one JSON object holding its type and exactly the attributes that are set (the broker id, comments without content (null, or an empty string, list or object) and markup without text are left out), and that object, read as its own kind, by its type attribute or as an element of the interactions list, gives the same interaction. "
 "Any other document is read by the same table without a panic: no description gives `Interaction N` (messages before V4 `Message N`), attributes of the wrong kind are ignored or taken as their printed text, provider states come from providerStates or else from the older providerState or provider_state, no name gives `unknown provider states`; not an object, no or an unknown type, a synchronous message without request or response list, or a part that cannot be read is an error. "
 "V1 to V3 interactions and messages do the same with their parts (before V3 only the name of the first state is kept), and turning an interaction into another form (V3 to V4, V4 to V3, a copy, a boxed copy) keeps its description, states, parts, id and everything else that form can hold, for every kind, including synchronous messages.",
 "all interactions of the three V4 kinds, V1-V3 interactions and messages with parts as in C19, and all JSON documents", "The tests write and read a few fixed interactions of each kind, most with one attribute set; wrong kinds of value are tried for two or three attributes.",
 [V4I, V4+"synch_http.rs", V4+"async_message.rs", V4+"sync_message.rs", PM+"sync_interaction.rs", PM+"provider_states.rs", PM+"interaction.rs", PM+"message.rs"], [("SynchronousHttp, AsynchronousMessage, SynchronousMessage from_json, to_json", V4+"synch_http.rs"), ("interaction_from_json, interactions_from_json, parse_plugin_config, InteractionMarkup", V4I), ("ProviderState::from_json, from_json_v3, to_json", PM+"provider_states.rs"), ("RequestResponseInteraction::from_json, to_json", PM+"sync_interaction.rs"), ("V4InteractionType Display and FromStr", V4+"mod.rs"), ("as_v4_http, as_v4_async_message, as_request_response, as_message, Clone and Display of boxed interactions", PM+"interaction.rs")],
 units=["inters"], theorems=["theorem_state", "theorem_states", "theorem_markup", "theorem_plugin", "theorem_type", "theorem_common", "theorem_http", "theorem_sync_message", "theorem_async_message", "theorem_interaction_v3"],
 note="Proof: every attribute of the three V4 kinds, provider states and V1-V3 interactions is written and read exactly as specified, for all values and documents, and the round trips follow as theorems over the round trips of the parts. Conversions between forms, copies of boxed interactions and V3 messages are checked by the driver only. Trusted: serde_json, HashMap, and the contracts of requests, responses and message contents proved for C19.", bounded="conversions between V3 and V4 forms, Clone and Display of boxed interactions, Message::from_json and to_json: driver only", assumptions=["Request and Response of V1-V3 are read and written by uninterpreted functions here: the driver decides them (C19)"])
prop("C24", "Whole pacts survive their JSON forms and name their version",
 "A V4 pact, a V1 to V3 request/response pact and a V3 message pact are each written as one JSON object with consumer, provider, every interaction (in V4 ordered by description, equal descriptions keeping their order; otherwise in the order of the pact), and metadata holding every attribute of the pact in its current spelling, the version written for as pactSpecification, this library's version as pactRust/models and, in V4, the plugins; and that document is loaded as a pact of the same kind and version with the same consumer, provider, interactions, metadata and plugins, where a document that names no version is read as V3, one with a version that is not supported as unknown, a V4 one as a V4 pact, any other with messages as a message pact, else as a request/response pact. "
 "Other documents are read by the same table: a missing consumer or provider has its default name, a missing list is empty, attributes of the metadata that are not objects become empty (before V4), malformed plugins are left out; it is an error if one interaction cannot be read or the document is not an object. "
 "Seen as or written for another version a pact keeps consumer, provider, metadata and every interaction that form can hold in order, and one of mixed kinds, of synchronous messages, or of messages before V3, is refused; finding, filtering, adding interactions, plugins (one entry per name and version, merged) and library versions change exactly what they name.",
 "all pacts of the three kinds with parts as in C19 and C20, all JSON documents; metadata does not hold one attribute in both its spellings (pact-rust and pactRust), and plugins are not put in the metadata by hand", "The tests write and read a few fixed pacts with one or two interactions; versions, malformed documents and downgrades have two or three examples each.",
 [V4+"pact.rs", PM+"sync_pact.rs", PM+"message_pact.rs", PM+"pact.rs", PM+"lib.rs", PM+"plugins.rs"], [("V4Pact: to_json, metadata_to_json, pact_from_json, from_json, as_request_response_pact, as_message_pact, metadata, filter_interactions, find_interaction_with_id, add_interaction, add_plugin_data, add_md_version", V4+"pact.rs"), ("RequestResponsePact: to_json, metadata_to_json, from_json, as_v4_pact, add_interaction, add_md_version", PM+"sync_pact.rs"), ("MessagePact: to_json, metadata_to_json, from_json, as_v4_pact, add_interaction, add_md_version", PM+"message_pact.rs"), ("load_pact_from_json, parse_meta_data, determine_spec_version", PM+"pact.rs"), ("PactSpecification: version_str, parse_version, From<&str>, Display; Consumer, Provider: from_json, to_json", PM+"lib.rs"), ("PluginData: merge, to_json", PM+"plugins.rs")],
 units=["pacts"], theorems=["theorem_version", "theorem_name", "theorem_stamp", "theorem_stamped_t", "theorem_plugins", "theorem_v4_pact", "theorem_rr_pact", "theorem_message_pact"],
 note="Proof: what each kind of pact is written as, what every document is read as, which kind a document is, and every downgrade, for all pacts and documents, over the contracts of the interactions (their own round trip is C20). Trusted: serde_json, BTreeMap, Itertools::sorted_by (a stable sort), lenient_semver (its reading of the five version texts this library writes is assumed), and PluginData's derived serde forms.",
 bounded="copies of boxed pacts, interactions_mut, equality of boxed pacts: driver only", assumptions=["lenient_semver reads 1.0.0, 1.1.0, 2.0.0, 3.0.0 and 4.0 as their numbers and rejects `unknown`; other versions: an uninterpreted function", "derived Serialize and Deserialize of PluginData write and read name, version and configuration", "Itertools::sorted_by is a stable sort"])
prop("C14", "Merging two pacts keeps every interaction of both, once, in order",
 "Merging a pact with another one of the same consumer and provider names gives a pact with self's consumer, provider, metadata and version (in V4 also its plugins, the other V4 pact's added to them) and the interactions of both in the order of description, then names of the provider states, then in V4 kind: before V4 one that both have (the same description and state names) comes out once, as the other pact has it, and every other one unchanged; in V4 one that both have (equal keys where both have keys, else the same description, state names and kind) comes out once, as self has it; one a pact repeats comes out as often as in the pact that has it more often. "
 "Where neither pact has two that are the same, and all or none have keys, how the interactions are ordered in either pact does not matter, and merging a pact with itself or with an empty one of the same names changes nothing but the order. "
 "Merging is refused, and nothing else is, if the names differ, if the other pact has an interaction the form cannot hold (V1 to V3), or, for request/response pacts, if any interaction of one conflicts with any of the other: the same description and states (with parameters) but another method, path, query or response status.",
 "all pairs of pacts of the three kinds with interactions as in C19 and C20", "The tests merge a handful of pairs of one or two interactions that are already in order.",
 [PM+"sync_pact.rs", PM+"message_pact.rs", V4+"pact.rs", PM+"interaction.rs", PM+"sync_interaction.rs", PM+"request.rs", PM+"response.rs", PM+"iterator_utils.rs"], [("ReadWritePact for RequestResponsePact::merge", PM+"sync_pact.rs"), ("ReadWritePact for MessagePact::merge", PM+"message_pact.rs"), ("ReadWritePact for V4Pact::merge", V4+"pact.rs"), ("merge_key", PM+"interaction.rs"), ("RequestResponseInteraction::conflicts_with", PM+"sync_interaction.rs"), ("Request::differences_from", PM+"request.rs"), ("Response::differences_from", PM+"response.rs"), ("CartesianProductIterator", PM+"iterator_utils.rs")],
 units=["conflicts", "merge"], theorems=["lemma_merged", "theorem_merged", "theorem_merged4", "lemma_rest", "vx_drain"],
 note="Proof: when each kind of merge is refused and what it gives otherwise, for all pairs of pacts, over the contracts of the interactions (their conversions are C20) and of Itertools; that the pairs the conflicts are looked for in are all pairs; what a conflict is; and, as theorems over those contracts, order, multiplicity and completeness of the result. Trusted: Itertools::sorted_by_key and merge_join_by, the total order and equality of texts and lists of texts, equality of queries, bodies and rules.",
 bounded="which of two equal interactions is kept among repeated ones, and that the order of equal ones is stable: driver only", assumptions=["Itertools::sorted_by_key returns the same items in order; merge_join_by steps through two lists by the given comparison", "Ord for String, Vec and tuples is a total order whose Equal is equality", "every interaction has a V4 form (C20)"])
prop("C18", "A generator changes exactly the values that its path selects",
 "Applying generators to a JSON body replaces each value that the path of a generator for the mode selects (a field by its name, an item by its number, with * all fields of an object or items of a list, with $ alone the whole document) by what the generator makes from it, leaves it if the generator fails there, whatever happens to the others, and changes nothing else; a generator of the other mode is not applied at all. "
 "A path expands to the JSON pointers (RFC 6901) of all the values it selects in a document, each once. "
 "In a form body the first parameter that the path names changes, a parameter being named by its name or by its name and its number among those of that name; the names, the order and the other values stay as they are, and either way the body is the new document or form with its content type.",
 "all JSON documents (names with any characters, empty ones too) and paths from $; all lists of parameters with names that are not empty and paths in normal form", "The tests resolve about ten paths in four documents with plain names, and apply a generator to one value at a time.",
 [JU, GM, PM+"generators/form_urlencoded.rs"], [("resolve_path, query_object_graph", JU), ("ContentTypeHandler<Value> for JsonHandler::apply_key, process_body; apply_generators", GM), ("ContentTypeHandler<String> for FormUrlEncodedHandler::apply_key, process_body", PM+"generators/form_urlencoded.rs")],
 units=["apply", "forms"], theorems=["theorem_outside", "theorem_selected", "theorem_names", "theorem_form_outside", "theorem_form_selected", "lemma_star_step", "lemma_chain_done", "lemma_collected", "lemma_put_frame"],
 note="Proof: the tree that the recursive expansion builds holds exactly the selected places (induction over the path, with no bound on the document), their pointers are the RFC 6901 ones, writing through them touches those places only, and over any sequence of generators what no path selects is unchanged. Trusted: indextree, serde_json's Value::pointer_mut, what one generator makes (a relation).",
 bounded="apply_generators (a closure with state): driver only; what serde_urlencoded writes: driver only", assumptions=["serde_json::Value::pointer_mut finds the value at an RFC 6901 pointer and writing through it changes that value only", "indextree: append_value adds a node below its parent; descendants and ancestors list each node once", "DocPath equality is equality of the texts; join_field and join_index by the contracts of C02"])
prop("C07", "Generated values have the form their generator describes",
 "A random integer lies between the two limits, both included and both possible (clipped to 0..65535 for a status), and there is none when the minimum is greater; a decimal of n digits has n digits and a point among them (none for one digit) with no needless zero in front; hexadecimal digits and ASCII letters and digits come in exactly the number asked for, any of them at any place; a UUID has the format asked for; a value for a regular expression matches all of it (anchors at its ends are dropped, an escaped dollar is not one). A date, time or date-time is the base from the context (its own key, or now) moved by the expression and written with the pattern, and a pattern that cannot be used is an error; a mock server URL is the example with the first match of the expression replaced by the URL and its first group; a provider state value is the one its expression names, converted. "
 "The value has the JSON type that its place calls for, an array-contains generator changes each item of a list by the generators of the variant it matches and no other item, and what cannot be generated is an error, never a panic.",
 "all generators, all contexts and values, all outcomes of the random source (decimal numbers of up to 300 digits)", "The tests generate one or two values per generator and look at their length; limits, rare digit choices, contexts with other keys and wrong patterns are not among them.",
 [GM, PM+"json_utils.rs"], [("GenerateValue<u16>, <String>, <Vec<String>> and <Value> for Generator::generate_value", GM), ("generate_decimal, generate_hexadecimal, generate_ascii_string, generate_int, strip_anchors, replace_with_regex, format_date_time", GM)], over=("inputs", "histories"),
 units=["gen_values"], theorems=["lemma_charset", "lemma_cuts"],
 note="Proof: the postcondition of each function is the form of the value, for every outcome of the random source (a contract that leaves the choice open), every context and every generator. Trusted: rand stays in its range, uuid prints its formats, regex, regex_syntax and rand_regex (match and sample relations), chrono and the date expressions (C22), the conversions proved in C13, the expressions proved in C12, apply_key proved in C18. That every outcome does occur, and what dates look like, only by the driver.",
 bounded="every value in the range occurs; what chrono prints: driver only", assumptions=["rand: gen_range and choose return an element of the range or list and panic only on an empty one; Alphanumeric samples are ASCII letters and digits", "rand_regex samples match the expression as a whole; Regex::replace replaces the first match"])
GX = PM+"generators/"
prop("C22", "Date and time expressions mean what the documentation says",
 "An expression is read exactly as its grammar says - a base (now, today, yesterday, tomorrow; now, midnight, noon, an hour of the clock from 1 to 12), or next or last with a unit, a day or a month, or nothing, and then any number of steps + n units and - n units - and anything else, including anything left over, is an error. "
 "It stands for the base moved by every step in turn: days, weeks, hours and smaller units are exact durations, months and years keep the day of the month or take the last day that the month has, next and last of a named day or month lead to the nearest such day (first of the month) that begins after or before, an hour without am or pm is the one in the other half of that day, and in a date-time expression the part in front of @ moves the base and the part behind it moves the result of that. "
 "An amount or a time that can not be represented is an error, never a panic or another time.",
 "all texts; base times whose date part stays some centuries inside of chrono's range, in zones without changes of the offset", "The tests execute about fifty expressions on one base, 2000-01-01 10:00, which has no month ends, leap days, hours past noon, or large amounts.",
 [GX+"datetime_expressions.rs", GX+"date_expression_parser.rs", GX+"time_expression_parser.rs"], [("execute_date_expression, execute_time_expression, execute_datetime_expression, forward_date_by, reverse_date_by, adjust_date_up_to, adjust_date_down_to, move_months, base_date, TimeBase::of", GX+"datetime_expressions.rs"), ("expression, adjustments, adjustment, offset, duration, duration_type, operation, base", GX+"date_expression_parser.rs"), ("expression, base, oclock, adjustments, adjustment, offset, duration, duration_type, operation", GX+"time_expression_parser.rs")],
 units=["date_parse", "time_parse", "when"], theorems=["lemma_next_day", "lemma_last_day", "lemma_week", "lemma_mon_up", "lemma_mon_down", "lemma_months_too_far", "lemma_units"],
 note="Proof: the two recursive-descent parsers accept exactly the grammar (given as a recursive function on the tokens) and build its adjustments, with no bound on the number of steps; execution is the fold of the adjustments over a calendar (days, months of the Gregorian calendar) that is part of the specification, with the loops that walk to the next or last day shown to end at the right one. Trusted: the logos lexers (what the tokens of a text are), chrono's arithmetic by the calendar.",
 bounded="the words that are tokens (the logos attributes), and what chrono computes: driver only, which has its own lexer and its own calendar", assumptions=["a logos token is never empty and what logos skips is white space to trim", "chrono: years from -262143 to 262142 can be represented; checked_add_signed, checked_add_months, with_hour, with_day... follow the Gregorian calendar"])
EX = MR.rsplit("/", 1)[0]+"/expressions.rs"
prop("C23", "Matching rule definition expressions mean what their grammar says",
 "A text is a matching rule definition exactly when the documented grammar derives it completely, and it gives the example value, the value type, the rules in order, the references and the generator that the grammar assigns; everything else is an error and never a panic or a guess. "
 "The escapes in a string literal stand for the characters the documentation lists, whatever matcher the string is for, and all other characters for themselves. "
 "Merging definitions keeps all rules in order, the first value and generator, and the most specific type, however the definitions are grouped, and a text is recognised as a definition exactly when it begins with one of the documented words.",
 "all texts whose brackets nest within the stack", "The tests parse about a hundred texts, most of them in their shortest form.",
 [EX], [("parse_matcher_def, is_matcher_def, matching_definition, matching_definition_exp, parse_matching, parse_matching_rule, parse_primitive_value, from_provider_state, decimal_value, process_raw_string, parse_each_key, parse_each_value, parse_length_param and the parsers of the matchers; MatchingRuleDefinition::merge, ValueType::merge", EX)],
 units=["defs"], theorems=["theorem_plain", "theorem_types", "theorem_merge"],
 note="Proof: every function of the recursive-descent parser is under contract, the grammar being a recursive function on the tokens (with what is left over), and the parser terminates for every token list; statements that only build an error report are dropped by the extraction (what they return is an error either way). Trusted: the tokens of a text and the texts they have (logos), the semver crate, u32::from_str_radix and char::from_u32.",
 bounded="which words are tokens (the logos attributes), the wording of errors and that building a report does not panic: driver only, which has its own lexer, escapes and semver check", assumptions=["a logos string token begins and ends with a quote", "semver::Version::parse, u32::from_str_radix, char::from_u32"])
CT = PM+"content_types.rs"
HP0 = PM+"http_parts.rs"
prop("C15", "Content types survive text, sort exactly, and are detected from contents",
 "Reading a content type and writing it again gives a text with the same meaning, whatever its attribute values are, and a text that is no media type is an error (or the unknown type where a default is asked for). "
 "Each type is JSON, XML, form or plain text exactly when its main type, subtype or suffix says so and binary otherwise, and two types are equivalent exactly when they agree in type, subtype and suffix (text/xml being application/xml) and in the attributes the first one has. "
 "Contents are taken for XML, HTML, JSON or plain text by how they begin after white space, as text and as bytes alike, and bytes that are not UTF-8 have no detected type.",
 "all texts, all types with non-empty attribute values, all contents", "The tests read three types and check a dozen predicates; no test detects a type.",
 [CT], [("ContentType::{parse, is_json, is_xml, is_strict_xml, is_text, is_binary, base_type, is_unknown, is_equivalent_to, is_form_urlencoded, fmt, from, from_str, eq}, detect_content_type_from_string, detect_content_type_from_bytes", CT)],
 units=["content"], theorems=["theorem_text_or_binary", "theorem_same_type", "theorem_base"],
 note="Proof: every predicate, the printed text, the conversions and both detection functions (for every text and every byte sequence) are under contract. Trusted: the mime crate reads a type (its grammar is the driver's, which has its own parser), leftmost matches of the four regular expressions.",
 bounded="the grammar of the mime crate and so the round trip through text, and what the four regular expressions match: driver only", assumptions=["mime::Mime::from_str and its accessors", "regex::Regex::find, str::to_uppercase", "std::str::from_utf8, valid_up_to and error_len"])
prop("C16", "Parts know their headers, content type, text and generators",
 "A request or response finds a header by its name in any case with all its values, and adding a header sets that name and changes nothing else; its content type is that of its body, else the one its headers (for a message: its metadata) name, else the one its contents look like. "
 "A body is text exactly when its hint, or else its type, says so and its bytes are UTF-8; it is displayed as that text or as its first 32 bytes in hexadecimal with its length, two digits for every byte. "
 "The generators of a category are the part's own, replaced at each path by those the matching rules there carry, and every accessor gives exactly the field it names.",
 "all parts whose header names differ in more than case, all bodies, metadata, rules and generators; adding headers to V4 message contents is left out", "The tests look up one header, display seven bodies and build the generators of no part.",
 [HP0, MR, "rust/pact_models/src/bodies.rs", "rust/pact_models/src/request.rs", "rust/pact_models/src/response.rs", HP, MP, "rust/pact_models/src/message.rs", "rust/pact_models/src/v4/async_message.rs"],
 [("HttpPart::{detect_content_type, content_type, has_header, lookup_header_value, has_text_body, add_header, build_generators}", HP0), ("HttpPart for Request", "rust/pact_models/src/request.rs"), ("HttpPart for Response", "rust/pact_models/src/response.rs"), ("HttpPart for HttpRequest and HttpResponse", HP), ("HttpPart for MessageContents", MP), ("HttpPart for AsynchronousMessage", "rust/pact_models/src/v4/async_message.rs"),
  ("HttpPart for Message, message_content_type, as_message_content, add_header", "rust/pact_models/src/message.rs"), ("OptionalBody::{is_text, value_as_string, str_value, display_string, display_bytes, from, fmt}", "rust/pact_models/src/bodies.rs"), ("MatchingRule::{has_generators, generators}, MatchingRuleCategory::generators, MatchingRules::rules_for_category", MR)],
 units=["http_part", "part_gens"], theorems=["theorem_lookup", "theorem_added", "theorem_hexes"],
 note="Proof: the provided methods of HttpPart for an arbitrary part (known by the contracts of its required methods), those required methods for each implementor, the text and display of bodies, and the generators of rules, for every map and every iteration order. Where names differ only in case the lookup is proved to answer one of them.",
 bounded="none", assumptions=["format!(\"{:02X}\") prints two hexadecimal digits, to_lowercase and to_ascii_lowercase are functions of the text", "content types, detection and JSON printing by their own contracts (C15)", "derived Clone gives an equal value"])
SI0, AM0, YM0, SH0, MS0, IN0 = PM+"sync_interaction.rs", V4+"async_message.rs", V4+"sync_message.rs", V4+"synch_http.rs", PM+"message.rs", PM+"interaction.rs"
prop("C17", "Interactions keep what they hold when viewed, copied or converted",
 "An HTTP interaction or message converted to another version keeps its id, description, provider states and both of its parts (or its contents, metadata, rules and generators), gains only a contentType in message metadata that has no such entry and whose body has a type, and takes the new version's defaults for the rest, so that going from version 3 to 4 and back gives it again. "
 "Every kind answers exactly the questions about its own kind, and its accessors give exactly the field they name. "
 "Copies, boxed or shared, equal the original, a calculated key changes only the key, and a setter changes exactly one field.",
 "all interactions of the five kinds", "The tests convert one interaction of each kind, with most fields empty.",
 [SH0, AM0, YM0, SI0, MS0, IN0, V4+"interaction.rs", V4+"http_parts.rs", PM+"request.rs", PM+"response.rs"],
 [("Interaction and V4Interaction for SynchronousHttp, with_key, default", SH0), ("Interaction and V4Interaction for AsynchronousMessage, with_key, default", AM0), ("Interaction and V4Interaction for SynchronousMessage, with_key, default", YM0), ("Interaction for RequestResponseInteraction", SI0), ("Interaction for Message", MS0), ("Interaction::{is_v4_http, is_v4_async_message, is_v4_sync_message, pending}, Clone for Box<dyn Interaction>", IN0),
  ("Clone for Box<dyn V4Interaction>", V4+"interaction.rs"), ("HttpRequest::as_v3_request, HttpResponse::as_v3_response, default", V4+"http_parts.rs"), ("Request::as_v4_request", PM+"request.rs"), ("Response::as_v4_response", PM+"response.rs")],
 units=["convert"], theorems=["theorem_there_and_back", "theorem_message_there_and_back", "theorem_and_forth"],
 note="Proof: every method of the two traits on every kind but the content type (C16) and JSON (C20), each stated as the whole value of the result, so that nothing else may change; the round trips are theorems over those contracts. Trait objects are the sum of the five kinds, dispatched by the compiler in the real code.",
 bounded="none", assumptions=["derived Clone gives an equal value", "the calculated key by the contract of C11, renaming a category by that of C05", "Box, Arc and Mutex hold the value put into them"])
TU = PM+"time_utils.rs"
prop("C21", "Date and time patterns accept exactly the values they describe",
 "A pattern is read as its fields - longest runs of one pattern letter, quoted text in which two quotes stand for one, and other text without letters, digits, quotes, braces and brackets - and anything else, a letter of no field, a run longer than its field allows or an empty pattern, is an error. "
 "A value is accepted exactly if it is, from its start to its end, one text of each field after the other, each field taking what it can (numbers within the limits of the field, names in any case, in the form the length of the run asks for; offsets of one sign and at most 18 hours; zones by the names and abbreviations of the time zone data), and if its day, when it also has a month, is a day of that month, in leap years too when it has a year of any length (without one, not February 29). "
 "What is generated from a pattern of era, date, time and text fields is one of its values, and no pattern and no value makes reading, checking or generating panic.",
 "all patterns and all values; the day of the year up to 356 (pinned by a test); generated values for patterns without k and K (on February 29 with a year)", "The tests check about a hundred pairs of a pattern and a value; the years, months and zones among them are ordinary ones.",
 [TU], [("parse_pattern and the 21 field patterns (era_pattern to timezone_pattern, text_pattern, quote_pattern, quoted_text_pattern)", TU), ("validate_datetime, validate_datetime_string, validate_matched_values, month_value", TU), ("the field values: era, year, month, month_num, week_in_year, week_in_month, day_in_year, day_in_month, day_of_week, day_of_week_name, hour_24, hour_24_0, hour_12, hour_12_0, minute, second, second_fraction, ampm, quarter, quarter_num, timezone, timezone_id, timezone_offset, timezone_offset_gmt, timezone_long_offset, timezone_long_offset_with_z", TU), ("to_chrono_pattern, generate_string", TU)],
 units=["datetime"], theorems=["lemma_all", "lemma_q1", "lemma_good", "lemma_same", "lemma_zone", "lemma_leap", "lemma_counts"],
 note="Proof: the parser combinators stay as they are written; over the contracts of nom's combinators every field pattern, the list of fields, every field value, the loop over the fields and the check of the day are proved equal to a table of the fields, for all patterns and values, and free of panics. Trusted: nom's combinators, the calendar of the crate gregorian, str::parse, to_lowercase, and which zones the time zone data names.",
 bounded="to_chrono_pattern and generate_string (chrono prints the value): driver only", assumptions=["nom 7: is_a, is_not, tag, tag_no_case, char, take_while_m_n, take_while1, digit1, alt, tuple, preceded, terminated, delimited, opt, value and many1 by contract (a parser is a function of the text that is left; many1 fails if its parser takes nothing)", "names that match without regard to case have the lower case name as their lower case", "gregorian: Month::new and YearMonth::total_days give the Gregorian calendar", "the maps built from the time zone data are asked by key only"])
# ---- not claimed
NB = "The crate this lives in does not build in this sandbox ({miss} are not in the offline cache), so neither the changed code nor a failing input could ever be run; "
PMA = "rust/pact_matching/src/"
prop("C25", "A request or response matches exactly when every part does",
 "An actual request, response or message matches an expected one exactly when its method, path, query, headers, status, metadata and body each match, under the matching rules selected for each part and plain equality where no rule is defined; every reported mismatch names a part that does differ, and a value compared with itself never mismatches.",
 "all pairs of interactions, matching rules and bodies", "The specification cases are a few hundred fixed pairs.",
 [PMA+"lib.rs", PMA+"json.rs", PMA+"query.rs", PMA+"headers.rs"], [("match_request, match_response, match_body, match_headers, match_query", PMA+"lib.rs")],
 na=NB.format(miss="http, infer, md5, onig, reqwest, tree_magic_mini and others")+"its comparison code is async and generic over dyn contexts and compares through third-party matchers (onig, XML, MIME), outside the verifier's dialect. The selection of rules it relies on is proved as C04.")
prop("C26", "Each matching rule accepts exactly the values it describes",
 "Type, regex, equality, include, number, boolean, null, date/time, semver, content-type, array-contains and status-code rules accept exactly the values they describe, for every kind of value, and min/max limits count elements exactly.",
 "all rules and all pairs of values", "The tests list a few values per rule.",
 [PMA+"matchingrules.rs", PMA+"matchers.rs"], [("Matches for &str, &Value, numbers and bool", PMA+"matchingrules.rs")],
 na=NB.format(miss="onig, semver's companions, http and others")+"most rules delegate to regular expressions, date parsing and semver that have no contract the verifier could check.")
PV = "rust/pact_verifier/src/"
prop("C27", "Verification fails exactly when a non-pending interaction fails",
 "A provider verification run succeeds exactly when every interaction selected by the filters and not pending verifies, each selected interaction is verified once, its provider state set-up runs before it and tear-down after it, and the published result agrees with the run.",
 "all pact sets, filters, pending flags and failures of callbacks", "The tests drive a few pacts with mocked providers.",
 [PV+"lib.rs", PV+"verification_result.rs"], [("verify_provider_async, verify_pact_internal, filter_interaction", PV+"lib.rs")], over=("inputs", "histories", "fault_sequences"),
 na=NB.format(miss="reqwest, http, tokio features and pact-plugin-driver")+"it is an asynchronous history of network calls (futures, traits with async callbacks), which a function-by-function contract in the installed verifier cannot express.")
prop("C28", "FFI handles stay valid until freed and are never used after",
 "Every handle or pointer given out by the C interface refers to the same object until its free function is called, calls with an unknown or freed handle fail without undefined behaviour, and strings returned can be freed exactly once.",
 "all sequences and interleavings of FFI calls", "The tests make straight-line calls.",
 ["rust/pact_ffi/src/mock_server/handles.rs", "rust/pact_ffi/src/models"], [("PactHandle, InteractionHandle, PACT_HANDLES", "rust/pact_ffi/src/mock_server/handles.rs")], over=("histories", "schedules"),
 na=NB.format(miss="onig, reqwest, http, zeroize users and pact_mock_server's dependencies")+"handles are raw pointers and a global mutex-protected map, which need caller-history ghost state and permission types across the C boundary.")
prop("C29", "Writing pact files concurrently or after a crash never corrupts them",
 "Writers of one pact file exclude each other (threads by a lock, processes by a file lock), a merge never loses the interactions of an earlier writer, and readers see a complete file.",
 "all interleavings of writers in threads and processes and all crash points", "The tests write from one thread.",
 [PM+"pact.rs", PM+"file_utils.rs"], [("write_pact, read_pact, with_read_lock, with_write_lock", PM+"pact.rs"), ("with_read_lock, with_write_lock", PM+"file_utils.rs")], over=("schedules", "crash_points"),
 na="a property of schedules, file locks and crash points: contracts of single functions do not speak of them, the file system calls (fs2/flock) have no specification in the verifier, and the wasm target the tests build compiles the locking out. What writing and merging compute is a separate, sequential property.")
prop("C30", "The mock server answers each request with the best matching interaction",
 "For every request the mock server returns the response of the interaction that matches it best, or the error response when none does, and records exactly one outcome per request received, also under concurrent requests.",
 "all sets of interactions, all request histories and interleavings", "The tests send a few sequential requests.",
 ["rust/pact_mock_server/src/matching.rs", "rust/pact_mock_server/src/mock_server.rs"], [("match_request", "rust/pact_mock_server/src/matching.rs")], over=("inputs", "histories", "schedules"),
 na=NB.format(miss="hyper, rustls-pemfile, http, reqwest")+"choosing among matches rests on pact_matching (C25), and the record of outcomes is asynchronous shared state.")
