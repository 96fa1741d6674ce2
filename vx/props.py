"""Which verified crates, contract files and theories decide each property."""
PROPS = {
    "C01": {"crates": {"path": ["procedure", "ser_url_path", "de_url_path", "theory:utf8", "theory:path", "theory:c01"]},
            "theorems": ["c01::theorem_client", "c01::theorem_c01", "c01::theorem_c01_refused", "c01::theorem_c01_unit", "c01::drive_tuple"]},
}
PROPS["C01"]["note"] = ("For all entry points and scalar tuples: the client's path and the server's decoding are functions proved equal to "
    "specifications whose round trip is a theorem. Trusts: the url crate's segment pusher and segment splitting, str::parse/to_string of numbers, "
    "UTF-8 conversion, serde's derived call sequences; slice iteration, filter and count (EntryPoint::var_count).")
PROPS["C02"] = {"crates": {"query": ["ser_url_query", "de_url_query", "theory:scalar", "theory:query", "theory:c02"]},
    "theorems": ["c02::theorem_client", "c02::theorem_client_map", "c02::theorem_read", "c02::theorem_unknown", "c02::theorem_c02",
                 "c02::drive_struct", "c02::drive_read"],
    "note": "For all structs and maps of optional scalars: the pairs written are exactly the present fields in order, and reading any pair list "
    "yields exactly what the known pairs denote (unknown pairs drop out whole); their composition is the round trip. Trusts: form_urlencoded's "
    "encode/parse being inverse, str::parse/to_string of numbers, serde's derived call sequences, mem::replace."}
PROPS["C03"] = {"crates": {"header": ["ser_http_header", "de_http_header", "theory:scalar", "theory:header", "theory:c03"]},
    "theorems": ["c03::theorem_safe", "c03::theorem_sender", "c03::theorem_sender_map", "c03::theorem_read", "c03::theorem_unknown",
                 "c03::theorem_c03", "c03::drive_struct", "c03::drive_read"],
    "note": "For all values: every line written is a token and a control-free value and earlier lines stay (theorem_safe); structs and maps of "
    "optional scalars, strings, UTF-8 bytes and unit structs are accepted exactly when every present field can be carried and are read back equal. "
    "Non-UTF-8 bytes go through an unsafe conversion and are only covered by the bounded runs. Trusts: miasht's header list and wire format "
    "(order kept, values trimmed), to_lowercase, str::parse/to_string, serde's derived call sequences."}
PROPS["C15"] = {"crates": {"path": ["procedure", "de_url_path", "theory:utf8", "theory:path", "theory:scalar", "theory:c01"],
                           "query": ["de_url_query", "theory:scalar", "theory:query", "theory:c02"],
                           "header": ["de_http_header", "theory:scalar", "theory:header", "theory:c03"]},
    "theorems": ["path: the contracts of every deserialize_* method (path_de)", "c02::lemma_one_text", "c02::theorem_read", "c03::lemma_one_text", "c03::theorem_read"],
    "note": "Every deserialize_* method of the three text deserialisers is proved to deliver exactly the value the next text denotes "
    "(percent-decoded, UTF-8, str::parse of the asked type) and to consume one text, or to fail. Trusts: str::parse (specified exactly for bool and "
    "integers; floats uninterpreted), UTF-8 conversion, the url/miasht iterators."}
PROPS["C04"] = {"crates": {"response": ["miasht_status", "ser_rpc_response", "de_rpc_response", "theory:status", "theory:response", "theory:c06"]},
    "theorems": ["status::theorem_one_to_one", "status::theorem_distinct", "c06::theorem_variant", "c06::theorem_number", "c06::drive_variant", "c06::drive_read"],
    "note": "For all variant names and status numbers: the status written is the standard's code of that name (the table and miasht's own Status type "
    "are both under contract), an unknown name or code is an error, and reading it back offers the same name or number; the table is proved injective. "
    "Trusts: miasht's status line reader/writer (number kept), serde's derived call sequences."}
PROPS["C05"] = {"crates": {"request": ["miasht_method", "ser_rpc_request", "de_rpc_request", "procedure", "ser_url_path", "ser_url_query", "ser_http_header",
                                       "theory:path", "theory:query", "theory:header", "theory:request", "theory:c05"]},
    "theorems": ["c05::theorem_request", "c05::theorem_order", "c05::theorem_unknown", "c05::theorem_target", "c05::drive_struct", "c05::drive_read"],
    "note": "For all procedures and request values: the request builder's final state is the method, the target made of entry point, path values and "
    "query, the header lines and a Content-Length equal to the body's length, or an error; the server-side deserialiser offers path, query and header "
    "once each from the matching part. Trusts: miasht's request writer, the url crate, serde's derived call sequences."}
PROPS["C06"] = {"crates": {"response": ["miasht_status", "ser_rpc_response", "de_rpc_response", "ser_http_header", "de_http_header", "theory:header", "theory:status",
                                        "theory:response", "theory:c06"]},
    "theorems": ["c06::theorem_struct", "c06::theorem_variant", "c06::theorem_head", "c06::drive_struct", "c06::drive_variant", "c06::drive_read"],
    "note": "For all response values: the response builder's final state has the status the value names, its header lines in order and a Content-Length "
    "equal to the body's length, or serialisation fails; the client-side deserialiser offers status and header once each. Trusts: miasht's response "
    "writer, serde's derived call sequences."}
_POOL = {"pool": ["pool", "theory:pool"]}
_POOLTRUST = (" Trusts: BTreeMap, HashMap and their iterators, the order on socket addresses being total, SystemTime and Duration, fibers' channels "
    "(commands and answers arrive as sent), miasht's connector (connects to the address given), fewer than 2^64 releases.")
PROPS["C09"] = {"crates": _POOL, "theorems": ["pool_history::theorem_c09", "pool_history::lemma_release", "pool_history::lemma_wf", "pool_history::drive_command"],
    "note": "For all command histories: each command handled is proved to be a step of the history relation, poll keeps the tables' invariant and runs "
    "such steps only, and over any history the idle connections are at most the pool's size and a release without room drops exactly the oldest." + _POOLTRUST}
PROPS["C10"] = {"crates": _POOL, "theorems": ["pool_history::theorem_c10", "pool_history::lemma_origin", "pool_history::lemma_acquire", "pool_history::drive_command"],
    "note": "For all command histories: what is handed out as idle was released for the asked address, is used when there is one and is handed out once; "
    "anything handed out leads to the asked address; both tables always describe the same connections; no panic (every expect/unreachable is proved)." + _POOLTRUST}
PROPS["C11"] = {"crates": _POOL, "theorems": ["pool_history::theorem_c11", "pool_history::lemma_black", "pool_history::lemma_lasts", "pool_history::drive_command"],
    "note": "For all command histories and clocks that do not go back (suspensions up to 95 years): within the configured time after a failure each acquisition of that "
    "address is refused and changes nothing, otherwise it proceeds normally; a suspension is only ever asked for (precondition of sending) after an attempt to "
    "connect to that address failed." + _POOLTRUST}
PROPS["C07"] = {"crates": {"router": ["router", "procedure", "theory:router"]},
    "theorems": ["router_theory::theorem_c07", "router_theory::theorem_c07_table", "router_theory::lemma_graft_step", "router_theory::lemma_graft_leaf", "router_theory::drive_router"],
    "note": "For all registration histories and all paths and methods: insert changes exactly the place registered or refuses exactly when it is taken, find "
    "answers with the handler of the best fitting pattern, 404 exactly when nothing fits and 405 exactly when only other methods do. Trusts: HashMap (equal "
    "keys are equal values), the url crate's segment splitting, the lifetime cast in get_child (same text), that boxing keeps the closure."}
PROPS["C08"] = {"crates": {"server": ["server", "misc", "theory:c08"]},
    "theorems": ["c08::theorem_c08", "c08::theorem_refused", "server::HandleHttpRequest::poll_impl (live)", "server::RpcServerBuilder::register (answers)"],
    "note": "For all routers, procedures, handlers, requests and poll schedules: each poll of a connection keeps the invariant that requests and responses alternate, each "
    "response being the one due (400 for a target that is no URL or parts that do not decode, the router's 404/405, otherwise what the handler returned), refused requests "
    "having had their body read, and that what follows a head is its body, or nothing for HEAD; the closure registered for a procedure is proved to answer so and to invoke "
    "the handler only with a value that decoded; every unreachable is proved so. Trusts: miasht's reader and writer, futures' combinators, the url crate's parser, a function-local static behind Once keeping its value "
    "(misc::parse_relative_url is verified with the initialisation in line), the router, codecs and problems (C07, C05, C06, C13 decide those), that read_body of a request leaves the request's head and connection."}
PROPS["C12"] = {"crates": {"client": ["client", "pool_call"]},
    "theorems": ["client::CallInner::poll (answered)", "client::RpcClient::call", "pool_call::lemma_acquire", "pool_call::lemma_done", "pool_call::lemma_goes_on",
                 "pool_call::PooledRpcClient::call", "pool_call::Call::poll (release_connection's precondition)"],
    "note": "For all procedures, values, peers and poll schedules: each poll of a call keeps the invariant saying which connection it runs over and what was written there, "
    "and a successful end carries the value decoded from the head and complete body read on that connection right after the request and nothing else was written; any "
    "error ends the call; a pooled call releases only such a connection, under its own address, and does so whenever it succeeds. Trusts: miasht's reader and writer "
    "(what a future can end in), futures' combinators, the codecs (C05, C06 decide those). A body whose length the peer does not announce is taken as miasht delivers it "
    "(known finding)."}
PROPS["C13"] = {"crates": {"problem": ["rfc7807", "theory:c13"]},
    "theorems": ["c13::drive_send", "c13::drive_read"],
    "note": "For all statuses, errors and problems: a problem response holds the status its problem declares, also after it is replaced; its body is the pretty JSON of that "
    "problem; a received body that encodes a problem replaces the problem held and any other leaves it; problems made from a status or an error have its code, texts and "
    "history. Trusts: the serde derives and their attributes (field names, content type, the tag; covered by the bounded runs), serde_json being its own inverse on problems."}
PROPS["C14"] = {"crates": {"embed": ["json", "json_pretty", "msgpack", "theory:c14"]},
    "theorems": ["c14::drive_json", "c14::drive_pretty", "c14::drive_msgpack"],
    "note": "For all values of all types: serialising an embedded value is one string (or bytes) event carrying exactly the encoder's output for that value, or an "
    "error exactly when the encoder or the outer format fails; reading one asks the outer format for text (bytes) once and yields exactly what the decoder makes of "
    "the whole of it, or an error. Trusts: serde_json and rmp_serde (encoder and decoder inverse on each value), serde's traits."}
NOT_APPLICABLE = {
    "C16": "A statement over thread interleavings of user-supplied handler types: it rests on auto traits (and on `unsafe impl Send for Router`), which no function contract expresses; Verus has no model of fibers' executors. See DESIGN.md for what reading the code shows.",
    "C17": "A liveness property over the asynchronous executor, the kernel's sockets and peers: contracts on single calls cannot express eventual completion across poll rounds.",
}
