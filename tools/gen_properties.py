#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "server/src/"
HS = S + "storage/hashmap_storage.rs"; TY = S + "storage/types.rs"
IN = S + "analysis/interpreter.rs"; PA = S + "analysis/parser.rs"; TK = S + "analysis/tokenizer.rs"; TS = S + "analysis/tokens.rs"
TCP = S + "io/tcp.rs"; ATCP = S + "io/tcp_async.rs"; ST = S + "single_threaded.rs"; AS = S + "async.rs"
ML = S + "multithreaded/listener.rs"; MA = S + "multithreaded/analysis.rs"; ME = S + "multithreaded/executor.rs"
MX = S + "multithreaded/expiration.rs"; MC = S + "multithreaded/coordinator.rs"; AU = S + "auth.rs"; ER = S + "error.rs"

prop("C01", "Commands behave as operations on one key-value map",
 "For every sequence of commands, each reply is the one a plain map from keys to values gives: a read returns the value most recently stored under that key, existence checks, conditional sets, updates and deletes report truthfully whether the key was there, and reading or updating a missing key is a key error. A command never changes any key other than the one it names.",
 ["histories", "inputs"], "Every finite history of set, get, update, delete, exists, get-if-exists, set-if-not-exists and type commands over any keys and values (null, bool, int, float, string, vector, map).",
 "The unit tests run one fixed call per storage method on one or two keys and never reach the interpreter; they cannot quantify over command histories or over interference between keys.",
 [IN, HS, TY], [("Interpreter::process_statement dispatch", IN), ("HashMapStorage get/set/update/delete/set_if_not_exists/contains_key", HS)],
 [("storage", "the key-value map", HS)], ["Interpreter::interpret results", "query replies", "Storage trait results"])

prop("C02", "Lifetimes: an elapsed key is absent to every command, a live key stays",
 "Once the lifetime given to a key has elapsed, every command treats the key as absent - reads, existence checks, conditional sets (which then succeed), updates, deletes, element and lifetime commands - whether or not it has been physically removed; before that moment, and for keys without a lifetime, a key never disappears on its own. Setting or updating a key replaces both its value and its lifetime, element commands and refused writes leave its lifetime alone, and the remaining lifetime reported is the time left in whole seconds, rounded down.",
 ["histories", "inputs"], "Every history of commands interleaved with any passage of time and any background expiry passes; every lifetime from 0 seconds to far beyond any representable date, given, changed or withdrawn at any point.",
 "The tests use one already expired key and one far-future key; no test lets time pass, changes lifetimes in sequence, or combines expiry with conditional sets, element commands or background removal.",
 [IN, HS, TY], [("StorageElement::is_expired consulted by every lookup", TY), ("update_expiration / set", HS), ("lifetime to deadline conversion", IN)],
 [("expiration", "deadline of an entry, if any", TY)], ["Interpreter::interpret results", "Storage trait results under a controlled clock"])

prop("C03", "Expiry passes remove only expired keys, miss none, keep books exact",
 "An expiry pass removes at most one key, only a key whose lifetime has elapsed, reports exactly how many it removed, and never fails or crashes; repeating passes eventually removes every expired key and then nothing more. At all times the number of keys tracked for expiry equals the number of stored keys that have a lifetime, and the number of stored keys equals the live keys plus the expired ones not yet removed.",
 ["histories", "schedules"], "Every interleaving of writes, lifetime changes, deletes, passage of time and expiry passes, with every possible random choice made by the passes.",
 "Tests never run an expiry pass; the index that tracks expiring keys is only compared with zero on an empty store.",
 [HS], [("expiring_keys / key_index swap-remove index", HS), ("invalidate_expired_keys, check_and_expire, invalidate_key_index", HS)],
 [("expiring_keys", "keys that have a lifetime, for random sampling", HS), ("key_index", "position of a key in expiring_keys", HS)],
 ["Storage::len", "Storage::expiring_keys_count", "Storage::invalidate_expired_keys", "Storage::check_and_expire"])

prop("C04", "Vectors and maps stay typed and behave as sequences and dictionaries",
 "A stored vector or map only ever holds elements (and map keys) of its declared types: a value of another type is refused with a type error, and an element command on a key of another kind is a type error. Within that, vectors behave as sequences (append at the end, pop from the end or null when empty, get and set by position with an index error out of range, exact length) and maps as dictionaries (last write per key wins, exact length, delete and exists report truthfully, index error for a missing element).",
 ["histories", "inputs"], "Every history of vector and map commands on any stored values, with any element, index and key, including wrong types and positions at and beyond the ends.",
 "Tests call each StorageVector/StorageMap method once or twice in isolation; the element commands of the interpreter (lookup, type dispatch, in-place mutation) have no tests at all.",
 [TY, IN], [("validate_key / validate_value", TY), ("StorageVector and StorageMap methods", TY), ("get_vector_element_mut / get_map_element_mut", IN)],
 None, ["Interpreter::interpret results", "query replies"])

prop("C05", "A request never exceeds its authorization level",
 "A request containing any command its user may not run - data-changing commands for read-only users, shutdown for anyone but admins - is refused as a whole with an authorization error and changes nothing: not one of its commands runs and the server keeps running. Requests within the level are never refused for authorization.",
 ["inputs", "histories"], "Every request (any number and order of commands), at every authorization level, in every state, on every server variant.",
 "No test exercises authorization at all.",
 [IN, ST, AU, ME, AS], [("validate_authorization over the whole batch before running", IN), ("shutdown decision of each server", ST)],
 None, ["Interpreter::interpret results and subsequent reads", "server liveness after the reply"])

prop("C06", "A request runs its commands in order, up to the first error or shutdown",
 "The commands of one request run in the order written, each seeing the effects of those before it, until the first one that fails or a shutdown; nothing after that point runs, and effects before it are kept. The reply is that of the last command run, and an empty request replies with nothing (null).",
 ["inputs", "histories"], "Every request of any length mixing succeeding and failing commands, from every store state.",
 "No test executes a request of more than zero statements.",
 [IN], [("process_statements loop", IN)], None, ["Interpreter::interpret results and subsequent reads"])

prop("C07", "Queries are parsed exactly by the grammar or refused without effect",
 "Every query text either yields exactly the commands it spells under the query grammar (keywords and names in any letter case, optional semicolons, any white space including leading and trailing, literals ended by white space, punctuation or the end of text, typed and possibly empty vector and map literals, optional lifetimes), or is refused with a tokenization, parse or type error and nothing runs. No text makes parsing crash or hang.",
 ["inputs"], "Every query string: every sequence of characters and every sequence of tokens, complete, truncated or malformed.",
 "Five fixed well-formed strings are tokenized; the parser has no tests, and truncated or malformed texts are never tried.",
 [TK, TS, PA], [("Tokenizer::get_next_token and literal scanners", TK), ("Parser statement functions", PA), ("keyword table", TS)],
 None, ["Tokenizer/Parser results", "query replies"])

prop("C08", "Literals survive the round trip unchanged",
 "A value written in a query and later read back is the value that was written: strings keep every character (case, escapes, any Unicode), integers the full 64-bit signed range, floats are the nearest 32-bit value, booleans and collection elements are kept, and a literal that cannot be represented is refused instead of altered. Two keys or map keys written differently (other than letter case of key names) never coincide.",
 ["inputs"], "Every literal of every type, alone or inside a vector or map literal, written through a query and read back through get or element commands and the reply encoding.",
 "Tests tokenize the literals 1, 1.0 and \"abc\" only, all lower case, and never read a value back.",
 [TK, PA, TY], [("get_string / get_numeric", TK), ("get_scalar_value_from_next_token", PA), ("JSON encoding of values", TY)],
 None, ["replies to get and element reads"])

prop("C09", "No request can crash, wedge or silence a server",
 "Whatever bytes a client sends and whenever it closes its connection, the server answers each fully sent request exactly once (with a result or an error), gives up on a connection whose client closes it early, and goes on serving later clients correctly. No request other than an authorized shutdown stops a server or any of its workers.",
 ["inputs", "fault_sequences", "histories"], "Every byte sequence and every point at which a client stops sending and closes, in any order and number, against the single-threaded, multithreaded and async servers.",
 "No test starts a server or feeds it bytes.",
 [TCP, ATCP, ST, ML, MA, ME, AS, TK, PA], [("convert_stream_to_request", TCP), ("per-request error paths of each server loop", ST), ("worker loops", MA)],
 None, ["TCP replies", "process liveness", "subsequent requests"])

prop("C10", "A request is understood the same however its bytes arrive",
 "The meaning of an HTTP request depends only on its bytes, never on how they are split across packets and reads: header and body are assembled until the declared body length (header name in any letter case) has arrived, and exactly that many body bytes are used. A request that is not a POST, has an invalid length or a body that is not a JSON object with a string query is answered with a bad-request error, and a connection closed before the request is complete yields an error rather than waiting forever.",
 ["inputs", "schedules", "fault_sequences"], "Every request and every way of cutting its bytes into reads, including cuts inside the header, inside a multi-byte character and at the header/body boundary, bytes beyond the declared body, and end of stream or a read error at any point.",
 "No test reads from a socket.",
 [TCP, ATCP], [("read loop accumulating into a buffer, reparsing", TCP), ("same, async", ATCP), ("extract_body_length_from_request", TCP)],
 [("buffer", "bytes received so far on the connection", TCP)], ["StreamRequest returned by receive_request", "TCP replies"])

prop("C11", "Every reply is a complete HTTP message carrying the right outcome",
 "Each reply is one HTTP/1.1 message whose status matches the outcome (200 for results; 422 for key, index, type, parse and tokenization errors; 401 for authorization, 403 for authentication, 400 for malformed requests, 500 otherwise), whose Content-Length is exactly the payload length in bytes, and whose payload is the full JSON of the result or the error text. It is delivered completely whatever its size, however slowly the client reads and however few bytes each write accepts, and values of every kind, including non-empty maps, can be returned.",
 ["inputs", "fault_sequences"], "Every result and every error, every payload size including multi-byte text and megabytes, every pattern of partial writes.",
 "No test builds or sends a reply.",
 [TCP, ATCP, ER, TY, IN], [("make_response and TcpStreamSender::send", TCP), ("same, async", ATCP), ("get_error_code", ER), ("Serialize for results", IN)],
 None, ["bytes received by the client"])

prop("C12", "Nothing runs without successful authentication",
 "On every server a request whose credentials are missing, rejected or map to no authorization level is answered with the matching error (internal, authentication, authorization) and has no effect, and every other request runs with exactly the level the authentication service granted to its own headers. No history of earlier or concurrent requests changes the level of a request.",
 ["inputs", "histories", "schedules"], "Every sequence and interleaving of requests with any credentials, on every server variant.",
 "No test authenticates a request.",
 [AU, ST, ML, AS, TCP, ATCP], [("MockAuthenticator", AU), ("handle_request", ST), ("convert_to_analysis_request", ML), ("listen_for_requests", AS), ("convert_headers_to_map", TCP)],
 None, ["TCP replies and subsequent reads", "authorization passed with a request"])

prop("C13", "Concurrent requests are linearizable and run exactly once",
 "With any number of concurrent clients and workers, the requests take effect one at a time, each whole request atomically at one moment between its being sent and its being answered, and the reply each client gets is the one for its own request at that moment. Every accepted request runs exactly once; one reported as timed out was simply late: it still runs exactly once, and its late reply never reaches anyone else.",
 ["schedules", "histories", "configurations"], "Every interleaving of listeners, analyzers, the executor and the expiration worker, for any pool sizes and any delays between stages.",
 "There is no test of the multithreaded or async servers; schedules are not explored at all.",
 [ML, MA, ME, MX, MC, AS], [("per-request reply channel", ML), ("shared receiver under a lock", MA), ("single executor thread owning the interpreter", ME), ("spawned analysis tasks and executor task", AS)],
 [("analysis channel", "requests waiting to be analyzed", MC), ("executor channel", "statements waiting to run", MC)],
 ["client-side invocation and reply history", "messages between the stages"])

prop("C14", "Only an executed admin shutdown stops a server, and it stops cleanly",
 "A server stops if and only if a shutdown command is actually executed for an admin (not when it is refused, malformed, or placed after a failing command). The client that asked is answered that the server is shutting down, every request that was executed before the stop is still answered, all workers finish and the process ends within a bounded time.",
 ["schedules", "histories", "crash_points"], "Every position of a shutdown in a request and every interleaving of the shutdown sequence with in-flight requests, on every server variant.",
 "No test starts or stops a server or worker.",
 [ST, AS, MC, ML, MA, ME, MX], [("shut_down decision", ST), ("start_shutdown flag, stop order", MC), ("shutdown flags of workers", ML), ("shutdown_flag polling", AS)],
 [("start_shutdown", "set by the executor when a shutdown ran", MC)], ["process exit", "replies around the stop", "join of workers"])

prop("C15", "All server variants give the same answers",
 "For every sequence of well-formed HTTP requests sent one after the other, the single-threaded, multithreaded and async servers give the same statuses and payloads, which are those of the store model for the same commands at the same authorization.",
 ["histories", "configurations"], "Every sequential history of HTTP requests with any credentials and queries.",
 "No test runs any of the three servers, let alone compares them.",
 [ST, ML, MA, ME, MC, AS, TCP, ATCP], [("three request pipelines around one interpreter", ST)], None, ["TCP replies of the three binaries"])

prop("C16", "A command that fails changes nothing",
 "A command answered with an error - and a conditional set answered false - leaves every key's value, type, lifetime and the expiry bookkeeping exactly as they were.",
 ["histories", "inputs"], "Every failing command (missing or expired key, wrong type, bad index, impossible lifetime, refused condition) from every store state.",
 "Tests check error variants of isolated calls but never that the state is unchanged afterwards.",
 [IN, HS, TY], [("check before mutate in storage and collections", TY)], None, ["full read-back of the store before and after"])

prop("C17", "Running servers reclaim expired keys by themselves",
 "While the multithreaded or async server runs, expiry passes keep being issued at their fixed interval without any client traffic and whatever requests came before, so the storage of expired keys is eventually reclaimed; passes are interleaved between requests, never inside one, and never surface in a reply.",
 ["schedules", "histories"], "Every history of requests, including failing ones, followed by or interleaved with any number of expiry rounds.",
 "No test runs the expiration worker or the async expiry task.",
 [MX, ME, AS, IN], [("ExpirationWorker::run / expire_keys", MX), ("expire_old_keys", AS), ("Statement::ExpireKeys", IN)], None,
 ["messages sent by the worker", "memory held by a server process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
