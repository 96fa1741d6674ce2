import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Path arguments survive the trip from client to server unchanged",
 "For every entry point whose constants are plain path text (written as they appear in a URL) and every tuple of booleans, integers, floats and strings bound to its variables: whenever the client accepts the call, the request path it produces consists of the entry point's constant segments and the percent-encoded values in order, and decoding that path on the server with the same entry point and types yields exactly the values that were passed; a path that differs from the entry point in a constant segment before a variable is refused. Arguments a path cannot carry faithfully (wrong number of values, '.' or '..', tab or newline characters, an empty first segment followed by others, unsupported kinds of value) are refused with an error on the client; they never silently become a different path. Percent-decoding on the server is strict and UTF-8: every %XX needs two hexadecimal digits and the bytes must form UTF-8, otherwise decoding fails.",
 ["inputs","programs"],"all entry points (any mix and number of constant and variable segments) x all tuples of scalar and string values, including non-ASCII, reserved and empty strings",
 "One test serialises a single tuple (\"hello world\", 3) and another parses that one path; booleans, non-ASCII text, reserved characters, dots, empty values and arity mismatches are never exercised, and no test composes the two directions.",
 ["src/serializers/url_path.rs","src/deserializers/url_path.rs","src/procedure.rs"],
 [("binding values to variable segments in order","src/serializers/url_path.rs"),("percent decoding and typed parsing of segments","src/deserializers/url_path.rs"),("counting and enumerating segments","src/procedure.rs")],
 ["URL produced by serialising a path value","value produced by deserialising a URL path"],
 [dict(name="index",meaning="number of entry-point segments already emitted / consumed",where="src/serializers/url_path.rs, src/deserializers/url_path.rs")])
p("C02","Query parameters survive the trip from client to server unchanged",
 "For every struct or map of named booleans, integers, floats, strings and optional values, the query string the client produces holds exactly one key=value pair per present value in order (absent optionals are omitted) and decoding it on the server yields equal values, with absent optionals absent again. A parameter whose name the receiver does not know is skipped whole: neither its presence, position nor value changes what is decoded for the known parameters.",
 ["inputs","programs"],"all parameter structs and maps, all values, and all query strings with additional unknown parameters at any position",
 "The tests serialise three fixed structs and parse two fixed query strings; booleans, reserved characters, repeated or unknown parameters and the composition of both directions are never exercised.",
 ["src/serializers/url_query.rs","src/deserializers/url_query.rs"],
 [("key/value alternation while serialising","src/serializers/url_query.rs"),("key/value phase while deserialising","src/deserializers/url_query.rs")],
 ["query string of the URL","value produced by deserialising the query"],
 [dict(name="pending key",meaning="key waiting for its value",where="src/serializers/url_query.rs"),dict(name="phase",meaning="whether the next string is a key or the stashed value",where="src/deserializers/url_query.rs")])
p("C03","Header fields survive the trip and can never inject other header fields",
 "For every struct or map of named scalars, strings, bytes and optional values used as headers (of a request or a response), whenever serialisation succeeds exactly one header line per present value is written, in order, and the receiver, naming the fields in lower case, decodes the same values (names compared case-insensitively, absent optionals absent again, surrounding whitespace aside). A name that is not an HTTP token or a value containing control characters such as CR, LF or NUL is refused with an error, so no value can add, remove or change another header or the message framing. Headers the receiver does not know are skipped and do not disturb known ones.",
 ["inputs","programs"],"all header structs and maps, all names and values including hostile ones, all orders and extra headers on the receiving side",
 "No test covers header serialisation or deserialisation at all.",
 ["src/serializers/http_header.rs","src/deserializers/http_header.rs"],
 [("key/value alternation while serialising","src/serializers/http_header.rs"),("key/value phase and lower-casing while deserialising","src/deserializers/http_header.rs")],
 ["bytes of the HTTP message head","value produced by deserialising the headers"],
 [dict(name="pending key",meaning="header name waiting for its value",where="src/serializers/http_header.rs"),dict(name="phase",meaning="whether the next item is a name or a value",where="src/deserializers/http_header.rs")])
p("C04","Response variants and HTTP status codes correspond one to one",
 "Every unit or struct variant of a response that is named after a status is sent with exactly the HTTP status code that the standard assigns to that name, and the client maps that code back to the same variant name; distinct names never share a code. A variant name or status code outside the supported set is reported as an error on either side, never mapped to some other status. A response given as a struct with a numeric status field is sent with exactly that status and decoded back to the same number.",
 ["inputs"],"all strings as variant names, all u16 status codes, and all response values built from them",
 "No test looks at status mapping; there are 57 names in two independent tables and 65536 codes.",
 ["src/serializers/rpc_response.rs","src/deserializers/rpc_response.rs"],
 [("name to status table","src/serializers/rpc_response.rs"),("code to name table","src/deserializers/rpc_response.rs")],
 ["status line of the response","variant decoded by the client"])
p("C05","A call produces exactly one well-formed request describing the call",
 "For every procedure and request value, the client either reports an error (never a panic) or produces one HTTP request whose method is the procedure's, whose target is the entry-point path with the bound path values followed by the query parameters, whose headers are the request's header fields (which do not themselves include Content-Length or Transfer-Encoding), and whose Content-Length equals the length of the body sent. Omitting the path, query or header part of the request leaves just that part empty, and giving unknown parts or parts in an unusable order is an error. Decoding that request on the server offers path, query and header, each once and from the corresponding part of the request.",
 ["inputs","programs"],"all request types (any subset and order of the path, query and header parts, known or unknown), all values, all bodies",
 "No test assembles a request; the order and presence of parts, missing paths and body length are untested.",
 ["src/serializers/rpc_request.rs","src/deserializers/rpc_request.rs"],
 [("part dispatch and request-line construction","src/serializers/rpc_request.rs"),("part sequencing on the server","src/deserializers/rpc_request.rs")],
 ["request bytes on the wire","request value given to the handler"],
 [dict(name="request under construction",meaning="exactly one of connection and request builder is present",where="src/serializers/rpc_request.rs"),dict(name="phase",meaning="which part is offered next",where="src/deserializers/rpc_request.rs")])
p("C06","A handler's result produces exactly one well-formed response",
 "For every response value, the server either reports an error (never a panic) or produces one HTTP response with the status the value names, exactly the value's header fields (which do not themselves include Content-Length or Transfer-Encoding), and a Content-Length equal to the length of the body that is sent, the body being the one the value supplies. A response value that names no status, names two, or gives headers before its status is an error, never a response with a made-up status. On the client the status and header parts are each offered once, taken from the response received.",
 ["inputs","programs"],"all response types (struct, unit variant, struct variant, nested newtype), all values and bodies",
 "No test assembles or decodes a response.",
 ["src/serializers/rpc_response.rs","src/deserializers/rpc_response.rs"],
 [("status-first construction of the response","src/serializers/rpc_response.rs"),("part sequencing on the client","src/deserializers/rpc_response.rs")],
 ["response bytes on the wire","response value given to the caller"],
 [dict(name="response under construction",meaning="exactly one of connection and response builder is present",where="src/serializers/rpc_response.rs")])
p("C07","Requests reach the handler registered for their method and path, or none",
 "For every set of registered procedures and every request, the handler invoked is one registered for the request's method under an entry point that matches the path segment by segment (constants equal to the text in the URL, any value for a variable, same number of segments), preferring at each segment a constant over a variable. If no registered entry point matches the path the answer is 404, and if the path matches but not with that method it is 405; some matching entry point with that method is always found when one exists. Registering a second handler for the same method and entry point is refused, and the handlers registered before it keep working unchanged.",
 ["inputs","histories","configurations"],"all registration sequences (including conflicting ones) x all methods and paths",
 "No test registers or routes anything.",
 ["src/router.rs","src/server.rs"],
 [("trie of segments with per-method leaves","src/router.rs")],
 ["handler invoked or status returned for a request","result of registration"],
 [dict(name="routing trie",meaning="partial map from (method, entry point) to handler",where="src/router.rs")])
p("C08","The server answers every request exactly once and never panics on input",
 "For every request head that HTTP parsing delivers, with a complete body whose length is announced, from a client that waits for the answer before it sends more, the server does not panic and produces exactly one response on that connection before reading the next request: 400 for an unparsable target or for path, query or headers the procedure's types reject, 404 or 405 when routing fails, otherwise whatever the handler returns (a result that is no valid response closes the connection instead). Rejected requests have their body consumed first, and a response to HEAD has no body while every other response is followed by exactly the body it announced. The handler is invoked only for requests whose parts all decoded.",
 ["inputs","histories"],"all request targets, headers and bodies, valid or hostile, in any sequence on a connection",
 "No test runs a server.",
 ["src/server.rs","src/misc.rs","src/router.rs","src/deserializers/rpc_request.rs"],
 [("per-connection state machine","src/server.rs"),("request target parsing","src/misc.rs")],
 ["responses on the wire per request sent","process staying alive"],
 [dict(name="phase",meaning="which of reading, handling, writing the connection is in",where="src/server.rs")])
p("C09","The pool never keeps more idle connections than its size, dropping the oldest",
 "After every sequence of calls, releases and failures, the number of idle connections the pool keeps is at most the configured pool size. When a release exceeds the size, the connections dropped are exactly those idle the longest, and the just-released one is kept unless the size is zero.",
 ["histories","configurations"],"all command histories over any number of addresses and all pool sizes including 0",
 "No test touches the pool.",
 ["src/pool.rs"],[("eviction loop on release","src/pool.rs"),("release-ordered queue","src/pool.rs")],
 ["idle connections held after each operation"],
 [dict(name="idle connections",meaning="connections available for reuse keyed by address and release number",where="src/pool.rs"),dict(name="queue",meaning="release number to address, oldest first",where="src/pool.rs")])
p("C10","A pooled connection is reused only for its own address, by one caller at once",
 "Whenever the pool hands out an idle connection for an address, that connection was released for that same address and has not been handed out since; an idle connection for the address is reused if one exists, otherwise a new connection to that address is started. Every command is answered, no bookkeeping is lost (each idle connection is reachable for reuse and for eviction), and no command history makes the pool panic.",
 ["histories"],"all interleavings of acquire, release and failure commands over any set of addresses",
 "No test touches the pool.",
 ["src/pool.rs"],[("range lookup by address","src/pool.rs"),("paired removal from both tables","src/pool.rs")],
 ["connection handed to each caller"],
 [dict(name="table pair invariant",meaning="idle table and queue describe the same set",where="src/pool.rs")])
p("C11","An address that failed to connect is suspended for the configured time, no longer",
 "After a failed connection attempt to an address, every acquisition for that address fails immediately, without connecting or reusing, until the configured suspension time has passed since the failure was recorded; afterwards acquisitions proceed normally again. Addresses that have not failed, or whose suspension has ended, are never refused because of it, and only a failed connection attempt made by the pool suspends an address.",
 ["histories","schedules"],"all histories of failures and acquisitions over any addresses, all clock readings and suspension durations",
 "No test touches the pool.",
 ["src/pool.rs"],[("blacklist check before acquisition","src/pool.rs"),("failure notification from a pending connect","src/pool.rs")],
 ["outcome of acquisitions after a failure"],
 [dict(name="blacklist",meaning="address to end of suspension",where="src/pool.rs")])
p("C12","A call returns the decoded answer to its own request, and pools its connection only on success",
 "A call sends its request once, on one connection, and completes successfully only with the value decoded from the status, headers and complete body of the response read from that same connection after the request was fully written; a call to a HEAD procedure reads no body. Any failure to connect, write, read or decode completes the call with an error. A pooled call returns its connection to the pool, under the address it was opened for, exactly when the call succeeds.",
 ["inputs","fault_sequences","schedules"],"all request and response values and all points at which connecting, writing, reading or decoding can fail or be delayed",
 "No test performs a call.",
 ["src/client.rs","src/pool.rs"],[("call state machine","src/client.rs"),("release on success","src/pool.rs")],
 ["result of the call future","commands sent to the pool"],
 [dict(name="phase",meaning="which of connecting, writing, reading head, reading body the call is in",where="src/client.rs")])
p("C13","Problem responses are self-consistent and readable by clients",
 "A problem-details response is sent with the HTTP status its body declares, content type application/problem+json and the JSON form of the problem as body, including after the problem is replaced. A client decoding that response (directly or inside a status-named variant) obtains an equal problem, and a body that is not a problem leaves a default problem rather than failing or panicking.",
 ["inputs"],"all statuses, problem contents and response bodies",
 "Two documentation examples check the JSON text of two problems; status, headers, decoding and replacement are untested.",
 ["src/rfc7807.rs"],[("problem response construction","src/rfc7807.rs")],
 ["response sent and problem decoded"])
p("C14","Values embedded as JSON or MessagePack are carried faithfully or refused",
 "The embedding helpers hand the enclosing serialiser exactly the JSON text (compact or pretty) or MessagePack bytes of the value, and read back exactly the value encoded in the text or bytes the enclosing deserialiser supplies. Text or bytes that do not encode a value of the type are an error, and so is a value that cannot be encoded; nothing else changes.",
 ["inputs","programs"],"all values, types and enclosing formats",
 "The helpers have no tests.",
 ["src/json.rs","src/json_pretty.rs","src/msgpack.rs"],[("encode then delegate","src/json.rs"),("encode then delegate","src/msgpack.rs")],
 ["value seen by the enclosing format"])
p("C15","Decoding delivers exactly the typed value the text denotes, or fails",
 "For every path segment, query parameter or header value whatsoever, and every declared type, the receiver delivers a value to the application only if the (decoded) text is exactly a representation of a value of that type within its range, and then delivers that value; otherwise decoding fails with an error and never panics. Text is consumed one item per value, in order, so one field's text is never delivered for another field.",
 ["inputs"],"all byte strings as wire text x all scalar, string, byte, optional and nested newtype targets",
 "The tests decode five well-formed values.",
 ["src/deserializers/url_path.rs","src/deserializers/url_query.rs","src/deserializers/http_header.rs"],
 [("typed parsing","src/deserializers/url_path.rs"),("typed parsing","src/deserializers/url_query.rs"),("typed parsing","src/deserializers/http_header.rs")],
 ["value given to the application"])
p("C16","Handlers registered on the server may be shared between threads safely",
 "Handling requests concurrently on several executor threads never causes a data race in a handler.",
 ["schedules"],"all schedules of connections over executor threads and all handler types the API accepts",
 "Tests are single threaded and register no handler.",
 ["src/router.rs","src/server.rs"],[("unsafe Send implementation for the shared router","src/router.rs")],["absence of data races"])
p("C17","Every call eventually completes",
 "If the peer and the network make progress, every call and every accepted request eventually completes (successfully or with an error) and no connection is left waiting forever inside the library.",
 ["schedules","fault_sequences"],"all schedules of the executor and all peer behaviours that make progress",
 "Liveness over infinite schedules; no test performs a call.",
 ["src/client.rs","src/server.rs","src/pool.rs"],[("polled state machines","src/client.rs")],["completion of futures"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
