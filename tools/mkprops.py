#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=hook)))

L = "libcomfo/"
S = "comfoserver/"

p("C01", "Requests on the wire are exactly the documented frames",
  "Every operation addressed to the unit transmits one request whose bytes are start mark, two command bytes, payload length, the payload with every 0x07 doubled, a checksum over the unescaped content, and end mark. "
  "A payload of more than 255 bytes is refused and nothing is transmitted for it.",
  ["inputs"], "every command code, every payload of 0..255 bytes (any byte values), and over-long payloads",
  "The tests frame half a dozen fixed packets; escaping, length and checksum depend on the payload's bytes and size, so all 0..255 lengths and all byte values matter.",
  [L + "proto.go", L + "conn.go"],
  [("frame encoding, escaping and checksum", L + "proto.go"), ("wrapping in start and end marks", L + "conn.go")],
  ["bytes written to the connection"])

p("C02", "A valid reply is delivered intact however it is split and whatever it holds",
  "When the unit answers a query with its acknowledgement and a well-formed reply frame of the matching type, the query succeeds and yields exactly the transmitted payload. "
  "This holds for every payload, including bytes that look like frame marks, and for every way the transport splits or coalesces the reply's bytes in time.",
  ["inputs", "schedules"], "every reply payload, checksum value and length, and every segmentation of the reply's bytes into reads",
  "The tests deliver each reply in one read and never place 0x07 next to a mark byte; the property ranges over all payloads times all segmentations.",
  [L + "conn.go", L + "proto.go"],
  [("splitting the input at marks", L + "conn.go"), ("unescaping and length check", L + "proto.go")],
  ["value or packet returned by a query", "bytes handed to the connection's readers"],
  state=[("input buffer", "bytes received and not yet consumed by the exchange", L + "conn.go")])

p("C03", "A malformed or foreign reply never becomes data",
  "If the reply is truncated, its declared length or checksum disagrees with its content, its response code is not the one that answers the request, or it is not the sequence acknowledgement, start mark, frame, end mark, then the caller gets an error and no value.",
  ["inputs", "fault_sequences"], "every corruption, truncation, insertion, reordering or substitution of the reply bytes, for every query",
  "The tests try seven malformed inputs; the space is every byte string a noisy line can produce.",
  [L + "conn.go", L + "proto.go", L + "message.go"],
  [("mark order and garbage detection", L + "conn.go"), ("length and checksum verification", L + "proto.go"), ("response code check", L + "conn.go")],
  ["result and error of a query"])

p("C04", "A command is reported as carried out only if the unit acknowledged it",
  "A setting operation returns without error only if, after its request was transmitted, the first thing received from the unit was the acknowledgement mark. "
  "Silence, other bytes, any other mark, a read error and a closed connection are all reported as errors; a command that was acknowledged is not reported as failed.",
  ["fault_sequences", "inputs"], "every byte sequence, read error or end of stream that can follow a setting request",
  "The tests only acknowledge properly or put garbage in front; none ends the stream, fails a read, or answers with a different mark.",
  [L + "conn.go", L + "message.go", L + "api.go"],
  [("reading up to the first mark", L + "conn.go")],
  ["error returned by a setting operation", "bytes and errors handed to the connection's readers"])

p("C05", "The unit gets exactly one acknowledgement per accepted reply and none otherwise",
  "After a complete, acceptable answer has been received the unit is sent exactly one acknowledgement mark, and nothing else until the next request. "
  "An exchange that fails (timeout, malformed or foreign reply, read error) is never acknowledged, and an acknowledgement that cannot be written is reported to the caller.",
  ["fault_sequences", "inputs"], "every exchange outcome and every write fault, on every operation",
  "The tests check the acknowledgement bytes for two successful exchanges and never look for one after a failure.",
  [L + "conn.go"], [("acknowledging after validation", L + "conn.go")],
  ["bytes written to the connection", "error returned to the caller"])

p("C06", "Exchanges with the unit never overlap",
  "However many callers use the library at once, one exchange is over (acknowledged or given up) before the first byte of the next request is written. "
  "Each caller receives the outcome of its own request.",
  ["schedules"], "every interleaving of concurrent operations and of unit response timing, including exchanges that fail",
  "All tests are single-threaded and one-shot; nothing exercises two callers.",
  [L + "conn.go"], [("process-wide exchange lock", L + "conn.go")],
  ["order of writes and reads on the connection", "results of concurrent operations"],
  state=[("exchange lock", "held for one request-reply-acknowledge exchange", L + "conn.go")])

p("C07", "Every exchange ends within about a second and frees the line",
  "If the unit is silent, stalls midway, or trickles bytes without completing its answer, the caller gets an error about one second after its request was written, no matter how the bytes are spaced. "
  "The line is then free: the next caller's request goes out.",
  ["fault_sequences", "schedules"], "every point at which the unit can stop answering, every spacing of the bytes before that, and every error path, followed by further operations",
  "The tests use 1 ms timers on a reader that hangs once; they do not check the whole-exchange budget, trickled input, or that the line is released.",
  [L + "conn.go"], [("one timer per exchange", L + "conn.go"), ("lock released on every return path", L + "conn.go")],
  ["time between the request's last byte and the operation's return", "progress of the next operation"])

p("C08", "A failed exchange costs at most one later exchange",
  "After an exchange failed (reply lost, late, garbled, foreign, or mixed with noise) on a connection that stays open, the exchanges that the unit then answers properly succeed, with at most one exception that leftovers of the failed one may spoil. "
  "In particular a lost reply followed by properly answered requests costs only the exchange whose reply was lost.",
  ["fault_sequences", "histories"], "every sequence of exchanges in which some are hit by a fault, with any timing of leftovers relative to later requests",
  "Every test uses a fresh connection for one exchange, so nothing observes what one failure does to the next exchange.",
  [L + "conn.go"], [("reading on behalf of an exchange", L + "conn.go")],
  ["outcomes of successive operations on one connection"],
  state=[("pending read", "a read from the connection still waiting for input when its exchange ended", L + "conn.go")])

p("C09", "Reply payloads are decoded field by field as documented",
  "For each of the eight reply types, a payload of the right length yields the documented value for every field, for all byte values; temperatures are whole degrees (raw/2, rounded down, minus 20), fan speeds are 1875000 divided by the raw period, multi-byte counters are big-endian. "
  "A payload of any other length, or a zero fan period, yields an error and no value, and decoding one reply never changes a value returned earlier.",
  ["inputs"], "every payload of every length for every reply type",
  "The tests decode one or two fixed payloads per type, so an offset, width or sign mistake that those bytes do not expose goes unseen.",
  [L + "response_types.go", L + "message.go"], [("per-type decoders and the response-code table", L + "response_types.go")],
  ["value returned by each get operation"])

p("C10", "Setting operations encode their arguments exactly or refuse without transmitting",
  "Setting the comfort temperature t transmits the single byte (t+20)*2 for every t up to 107; setting the fan speed s transmits s for 0..4; writing fan profiles transmits the four supply and four exhaust percentages in the documented order. "
  "Arguments outside the documented range are refused with an error and nothing is transmitted.",
  ["inputs"], "every argument value of every setting operation",
  "The tests check two or three values per setter and never that a refused call leaves the line untouched.",
  [L + "request_types.go", L + "message.go", L + "api.go"], [("range checks and encoders", L + "request_types.go"), ("profile checks", L + "api.go")],
  ["bytes written to the connection", "error of the call"])

p("C11", "Changing one fan profile changes nothing else and loses no update",
  "Setting one profile to p percent makes the unit's supply and exhaust percentage of that profile p and leaves the other three profiles as the unit reported them; if the profiles cannot be read first, nothing is written. "
  "When several profile changes, of one profile or of all, run concurrently, the final profiles are those of some sequential order of the successful ones.",
  ["schedules", "inputs", "fault_sequences"], "every unit state, every profile and percentage, every interleaving of concurrent profile operations, and faults in either half of the read-modify-write",
  "No test calls the profile setters at all.",
  [L + "api.go"], [("API lock around read-modify-write", L + "api.go")],
  ["profile frames received by the unit", "unit's profiles after the calls"],
  state=[("API lock", "held across the read and the write of profiles", L + "api.go")])

p("C12", "Reads report the unit's latest answer, whole and undisturbed by failures",
  "Every read RPC returns, field for field, the most recent answer successfully fetched from the unit for that data set (zero values if there was none yet); all fields of one response stem from the same unit answer. "
  "A refresh that fails leaves what is served unchanged.",
  ["histories", "schedules", "fault_sequences"], "every history of refreshes (good and failed), unit changes and concurrent reads, for all six data sets",
  "The server package has no tests at all.",
  [S + "caches.go", S + "protobuf.go", S + "server.go"], [("per-data-set cache and lock", S + "caches.go"), ("mapping to response messages", S + "protobuf.go")],
  ["responses of the six read RPCs", "answers the unit gave"],
  state=[("caches", "last successful answer per data set", S + "caches.go")])

p("C13", "The unit is contacted only when start-up, schedule, flush or a change needs it",
  "Read RPCs and refused requests cause no traffic with the unit, however many are made. "
  "Every request the unit receives is one that start-up, a due scheduled refresh, an explicit flush, or an accepted change needs, and it is sent only as often as that needs it.",
  ["histories", "schedules"], "every mix of reads, refused and accepted requests and the passage of time",
  "The server package has no tests; nothing counts unit requests.",
  [S + "server.go", S + "caches.go", S + "timers.go"], [("reads served from caches", S + "server.go"), ("staleness check", S + "caches.go")],
  ["requests received by the unit"])

p("C14", "Start-up asks the unit for every data set and survives failures",
  "Starting the caches asks the unit for boot information, bypass, temperatures, fans, fan profiles and errors, each once, before it returns. "
  "A data set whose fetch fails does not keep the others from being fetched or the service from starting, and is picked up by a later refresh or flush.",
  ["fault_sequences"], "every subset of the six start-up fetches failing, in every way a fetch can fail",
  "The server package has no tests.",
  [S + "timers.go", S + "caches.go"], [("initial population", S + "timers.go")],
  ["requests received by the unit before start-up returns", "reads after start-up"])

p("C15", "Cached data is refreshed on schedule",
  "At every 5-second mark after start-up temperatures and fans are fetched from the unit, at every 5-minute mark fan profiles and bypass, at every hour mark boot information and errors; a data set fetched successfully less than 4.5 seconds before is skipped. "
  "This goes on indefinitely, whatever failed before: a data set whose fetch failed is fetched again at its next mark.",
  ["histories", "fault_sequences", "schedules"], "unbounded running time, with failures, slow answers, flushes and changes at any moment",
  "The server package has no tests, and the periods reach an hour.",
  [S + "timers.go", S + "caches.go"], [("three tickers and the cache worker", S + "timers.go"), ("staleness margin", S + "caches.go")],
  ["times and kinds of requests received by the unit"],
  state=[("last-updated time", "when the last successful fetch of a data set began", S + "caches.go")])

p("C16", "A flush refreshes exactly what it names before it answers, truthfully",
  "Flushing a data set fetches that data set from the unit after the call was made and before it is answered, and no other; flushing everything fetches all six. "
  "The answer reports success exactly when all the named fetches succeeded; an unknown data set is answered with failure and without unit traffic; concurrent flushes each get the outcome of their own request.",
  ["schedules", "inputs", "fault_sequences"], "every flush kind (known or not), every interleaving of concurrent flushes with scheduled refreshes, every fetch outcome",
  "The server package has no tests.",
  [S + "server.go", S + "caches.go", S + "timers.go"], [("flush request and result channels served by one worker", S + "timers.go"), ("mapping of flush kinds", S + "caches.go")],
  ["flush responses", "requests received by the unit in between"])

p("C17", "Change requests are validated on their full value before the unit is touched",
  "A fan speed request is accepted only if it names a profile 1-4 absolutely, or steps from the current one to a profile in 1-4, and never both; a profile request only for profile 1-4 and 15-100 percent; a comfort request only up to 107 degrees. "
  "Every other value, over the whole range of the message fields, is refused with an error (an invalid-argument one for speed and profile requests and for temperatures above 255) and the unit is sent nothing.",
  ["inputs"], "every 32-bit value of each request field, from every current state",
  "The server package has no tests; values that wrap to a valid 8-bit number need inputs nobody tries by hand.",
  [S + "helpers.go", S + "server.go"], [("target resolution and bounds", S + "helpers.go"), ("argument checks", S + "server.go")],
  ["response or error of the RPC", "requests received by the unit"])

p("C18", "A speed change is confirmed by the unit before it is reported",
  "A fan speed request that differs from the current profile is answered as modified only after the unit acknowledged the command and then, in an answer it gave after that, reported supply and exhaust duty equal to the target profile's. "
  "If that has not happened within ten readings about half a second apart the request fails, and from then on the server goes by the speed the unit then reports; if the target is already current, nothing is sent and the request is answered as not modified.",
  ["histories", "fault_sequences", "schedules"], "every ramp behaviour of the unit, including slow, partial (one fan only), failing reads and never, with scheduled refreshes in between",
  "The server package has no tests; the behaviour depends on the unit's timing.",
  [S + "server.go", S + "caches.go"], [("polling until the target duty is seen", S + "caches.go"), ("refreshing the profile data", S + "server.go")],
  ["responses of fan speed requests", "requests and answers exchanged with the unit meanwhile"])

p("C19", "Concurrent change requests take effect one after another",
  "Whatever change requests run at the same time, their effects on the unit and their responses (modified, original, target) are those of some one-at-a-time order that respects real time. "
  "No relative step is lost or applied twice, and no profile change undoes another.",
  ["schedules"], "every interleaving of concurrent speed, profile and comfort requests with each other, with flushes and with scheduled refreshes",
  "The server package has no tests, let alone concurrent ones.",
  [S + "server.go"], [("fan lock and temperature lock around read-decide-write-refresh", S + "server.go")],
  ["responses of the change requests", "commands received by the unit"],
  state=[("fan lock, temperature lock", "held by a change request from its decision to its answer", S + "server.go")])

p("C20", "A successful change is in force on the unit and visible to later reads",
  "If the unit answers every request and nobody else changes its settings, then whenever a change request is answered without error the unit's setting equals the requested target, and a read made after that answer shows it. "
  "This includes requests answered as not modified.",
  ["histories", "schedules"], "every history of change requests, including earlier failed ones, with any timing of scheduled refreshes",
  "The server package has no tests; the failure needs a particular sequence of requests.",
  [S + "server.go", S + "caches.go"], [("forced refresh after a change", S + "server.go")],
  ["unit state, responses and later reads"])

p("C21", "The service never wedges",
  "Whatever requests are made and however the unit misbehaves while the connection is open, every request is answered in bounded time, and once the unit behaves again all requests and scheduled refreshes work as before. "
  "No sequence of requests or failures leaves a lock held or the background worker stuck.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of requests and every sequence of unit faults, followed by a healthy period",
  "Nothing in the tests runs the worker, the locks or the channels.",
  [S + "timers.go", S + "caches.go", S + "server.go", L + "conn.go"], [("lock release on all paths", S + "caches.go"), ("worker and flush channels", S + "timers.go")],
  ["answers of all requests", "unit traffic after the faults"])

p("C22", "Shared data is never accessed without synchronisation",
  "Concurrent reads, changes, flushes and scheduled refreshes never access the served data without mutual exclusion, so no request acts on a half-updated data set.",
  ["schedules"], "every combination of two operations running at the same time",
  "The server package has no tests; the library's are single-threaded.",
  [S + "caches.go", S + "server.go", S + "protobuf.go", L + "conn.go"], [("cache locks", S + "caches.go")],
  ["happens-before order of accesses (race detector)", "combinations of fields in responses"])

p("C23", "The HTTP interface carries every operation faithfully in both encodings",
  "Each of the ten operations is reachable by POST under /twirp/comfo.api.Comfo/ in JSON and in protobuf binary encoding, with the published field names and numbers, and both give the same outcome. "
  "Refused arguments are answered 400 invalid_argument, unit failures 500 internal, unknown methods or paths 404, and an operation's outcome reaches the client even if it takes as long as a speed change can take.",
  ["inputs", "histories"], "every operation, encoding, field value and outcome, including slow ones",
  "The root package and the generated RPC code have no tests.",
  ["routes.go", "comfo.go", "logger.go", "rpc/comfo/comfo.pb.go", "rpc/comfo/comfo.twirp.go", "rpc/comfo/comfo.proto"],
  [("router and Twirp server", "routes.go"), ("server time limits", "comfo.go"), ("message definitions", "rpc/comfo/comfo.proto")],
  ["HTTP status, headers and bodies of the running program"])

p("C24", "Configuration is honoured and a unit that cannot be reached stops the program",
  "Mode, target, listen address and debug come from the command line, else from COMFO_ environment variables, else from the documented defaults. "
  "The program serves only after it connected to the configured unit over the configured transport (TCP or serial) and attempted the first fetches; an unknown mode, an unreachable unit or an unusable listen address ends it with a non-zero status.",
  ["configurations"], "every combination of flag, environment and default for each setting, both transports, reachable or not",
  "The root package has no tests.",
  ["config.go", "comfo.go"], [("flag and environment binding", "config.go"), ("connecting", "comfo.go")],
  ["connections made, listening socket, exit status of the program"])

p("C25", "The Python client validates, translates and reports faithfully",
  "The Python client sends exactly the request that corresponds to each call, returns the response's values, and refuses out-of-range speeds, percentages and temperatures with its own exceptions before sending anything. "
  "Stepping the speed past either end yields False while any other server error is raised, and every asynchronous variant behaves as the synchronous one on the loop it was given or was created in.",
  ["inputs", "configurations"], "every method, argument value and server outcome, sync and async, with and without an explicit loop",
  "The Python client has no tests and is not even imported by the build.",
  ["python/comfo/client.py", "python/comfo/types.py", "python/comfo/exceptions.py", "python/comfo/comfo_twirp.py"],
  [("argument checks and error translation", "python/comfo/client.py"), ("field copying", "python/comfo/types.py")],
  ["requests sent, values returned, exceptions raised"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
