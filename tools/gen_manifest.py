#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties this machinery claims."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = "TLA+ model (TLC) + replay of every TLC transition on the code + TLC trace validation"
LEVELS = {
 "C01": (REPLAY, "Every transition of the bounded store model (2 keys, 16 values of every kind) replayed on the interpreter through statements, query text and the single-threaded serve loop, long random walks, and random rich histories judged by TLC against Store.tla. Trusts TLC, the projection in harness/src/val.rs and the virtual clock shim."),
 "C02": (REPLAY, "Every transition of the lifetime models (2 keys x deadline classes, half-second ticks) and random histories with millisecond clock jumps to and around deadlines under a virtual clock, judged by Store.tla."),
 "C03": (REPLAY + " + TLC refinement of an index-level model", "HashStore.tla (hash map + swap-remove index) refines Store.tla for 4 (5) keys; every transition of the 5-key index graph replayed with exact len/tracked counts; drain runs."),
 "C04": (REPLAY, "Every transition of the collection models and random histories with collections of up to 120 elements judged by Store.tla (WellTyped invariant at each step)."),
 "C05": (REPLAY, "Every request of up to 2 of all commands at every level from every reachable store of the auth model, and random requests, replayed and judged by Run/Permitted of Store.tla."),
 "C06": (REPLAY, "Every request of up to 3 commands over 10 commands at every level from every reachable store, random batches of up to 65 commands judged by TLC."),
 "C07": ("TLA+ grammar automaton (TLC-enumerated vectors replayed on the real parser; recorded texts judged by TLC)", "Lang.tla: every viable token sequence up to 6 tokens (8 thorough) and every text of up to 3 characters (4) in 5 contexts replayed; random grammar-directed and damaged texts (incl. Unicode white space, letters, numbers) judged by LangTrace, on the parser and end to end on the store. Characters outside the model's tables, outside string literals, are only checked for no crash."),
 "C08": ("TLA+ lexer/grammar with exact IEEE rounding (TLC trace validation and replay of TLC-enumerated round trips)", "Every command over sets of boundary literals written and understood again (5915 texts), random literals of all kinds judged code point by code point; float literals checked against exact big-number nearest-float in Float32.tla."),
 "C16": (REPLAY, "Full state comparison after every failing command in the replayed graphs and recorded histories (FailureChangesNothing on the model)."),
}
LEVELS["C10"] = ("TLA+ reader automaton (TLC-enumerated byte streams replayed on both real readers; recorded deliveries judged by TLC)", "Http.tla/JsonText.tla give the meaning of every prefix of every stream; Reader.tla checks segmentation independence and termination of the read loop. 2252 streams (3 odd parts in thorough) delivered whole, in random pieces, byte by byte, with every cut and truncation of the nearly plain ones, to the sync and async stream handlers; random and damaged requests up to 6 KB with resets. Malformed heads, invalid UTF-8 bodies, chunked encoding and conflicting lengths are only held to 'answers, never hangs or crashes'.")
LEVELS["C11"] = ("TLA+ reply grammar (recorded replies judged by TLC)", "Reply.tla parses the bytes a client got and compares status, length and JSON with the outcome handed to the sender: every reply kind and value kind, short and interrupted writes, replies of up to megabytes to slow readers through small socket buffers, clients that go away.")
W = "TLA+ trace validation (TLC) of recorded client/server histories against Served.tla / Service.tla"
LEVELS["C09"] = (W, "Rough clients (garbage, cut, reset, half-closed, flooding requests) against the three real servers; every fully sent request answered once and the server still serving, every probe judged by ServedTrace over Store.tla.")
LEVELS["C12"] = (W, "Sequences of requests with every kind of good, missing, wrong and unknown credentials against the three real servers, in which a refused request must have the matching error and no effect and a granted one exactly its own level; also concurrently on the async and multithreaded servers (ServiceTrace).")
LEVELS["C13"] = (W + " (lazy linearization)", "Recorded call/return histories of concurrent clients on the multithreaded and async binaries, under thread stalls injected by the shim, searched by TLC for a linearization over Store.tla; every request must run exactly once (unique pushes).")
LEVELS["C14"] = (W, "Shutdown requests of every kind (executed, refused, malformed, after a failing command) at random points of sequential and concurrent histories against the three real servers; stop iff executed, everyone executed answered, process exits in bounded time.")
LEVELS["C15"] = (W, "The same model (ServedTrace over Store.tla and Reply.tla) decides the statuses and payloads of all three servers for the same generated sequences.")
P = " + replay of TLC behaviours on the real pipeline stages"
for k in ("C12", "C13", "C14"):
    LEVELS[k] = (LEVELS[k][0] + P, LEVELS[k][1] + " Behaviours of PipelineGen (6 requests of 7 kinds, several pool sizes, time-outs, passes, shutdown order) are replayed on the real listeners, analyzers and executor with the harness between the stages.")
LEVELS["C13"] = (LEVELS["C13"][0] + " + TLC refinement and liveness of the pipeline", LEVELS["C13"][1] + " Pipeline.tla refines the atomic Service for 3 requests in every interleaving.")
LEVELS["C17"] = ("TLA+ model (TLC liveness) + TLC trace validation of the expiration worker and of memory held by running servers", "Reclaim.tla; the real ExpirationWorker's messages over several rounds and the multithreaded and async servers holding 2 MB values with lifetimes after random histories, judged by ReclaimTrace.tla.")
NA = []
checks = []
for p in sorted(LEVELS):
    t, n = LEVELS[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": t, "level": "model_checking", "level_note": n})
allp = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
na = [{"property": p, "reason": "check under construction"} for p in allp if p not in LEVELS]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na + NA,
     "notes": "TLA+ checked with TLC. No hooks in /repo: the code is observed through its public interface and an LD_PRELOAD shim (clock, sockets)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
