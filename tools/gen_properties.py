#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run from anywhere)."""
import json, os
P = []
CL = "socket-io-client/src/"; PR = "socket-io-protocol/src/"; SO = PR + "socket/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Built packets are well-formed Socket.IO wire messages",
  "Whatever event or acknowledgement a user builds (any event name, namespace, id, text or binary mode, any serializable arguments) is sent as one text message whose type digit, attachment count, namespace, id and JSON array state exactly what was built, followed in order by exactly that many binary messages. In binary mode every byte string and every non-empty sequence of u8 inside the arguments, however deeply nested, is replaced by a placeholder whose number selects the attachment holding exactly those bytes; every other value is written as the JSON that plain JSON serialization gives.",
  ["inputs"], "all argument shapes of the serde data model up to a nesting bound, all modes, ids, namespaces, event names of the alphabet, argument lists up to a length bound",
  "The unit tests build five fixed packets; the statement ranges over every serde value shape, every position of byte data in it, and every header combination.",
  [SO + "ser.rs", SO + "args/serialize_attachments.rs", PR + "engine.rs"],
  [("packet builder", SO + "ser.rs"), ("serializer wrapper that diverts byte sequences to attachments", SO + "args/serialize_attachments.rs")],
  [("attachment list", "binary messages collected while serializing", SO + "ser.rs")], ["public packet builder output"])

p("C02", "Decoding a built packet gives the same packet back",
  "Feeding the messages of any built event or acknowledgement to the decoder yields a packet with the same kind, namespace, id and number of arguments, and each argument read back (dynamically as JSON or into a type) equals the value that was put in, with byte strings restored from the attachments (and decimal fractions as precisely as plain JSON restores them). This includes acknowledgements without arguments, many attachments, and namespaces, event names and arguments containing commas, brackets, quotes, escapes or non-ASCII text.",
  ["inputs"], "the packet alphabet of C01 restricted to namespaces without a comma, through the public encoder and decoder",
  "No test feeds an encoded packet to the decoder; agreement of two independently written halves over all inputs is not reachable by fixed examples.",
  [SO + "ser.rs", SO + "de.rs", SO + "mod.rs", SO + "args/mod.rs", SO + "args/serialize_attachments.rs", SO + "args/deserialize_attachments.rs"],
  [("packet builder", SO + "ser.rs"), ("text packet parser", SO + "de.rs"), ("placeholder resolution", SO + "args/")], observe=["public builder and decoder"])

p("C03", "A failed argument leaves the packet under construction unchanged",
  "If serializing one argument of an event or acknowledgement fails, at any point inside the value and in text or binary mode, the call reports an error and the packet is exactly what it would have been had that call never been made. Arguments added before and after, and the attachments and their numbering, are unaffected.",
  ["histories", "fault_sequences"], "all sequences of succeeding and failing argument additions up to a length bound, with the failure injected at every position inside the value",
  "No test lets an argument fail; the guarantee is about every failure point of every history of additions.",
  [SO + "ser.rs", SO + "args/serialize_attachments.rs", CL + "emit.rs"],
  [("rollback of buffer and attachments after a failed argument", SO + "ser.rs")],
  [("buffer, attachments, first-argument flag", "packet under construction", SO + "ser.rs")], ["public packet builder output"])

p("C04", "Text packets decode exactly as the packet grammar says",
  "For every text payload, decoding yields exactly the kind, attachment count, namespace (root when absent, otherwise up to the first comma), id and argument JSON that the Socket.IO packet grammar assigns to it, and reports an error for every payload outside the grammar, lacking a required part, carrying data its kind does not allow, or whose numbers do not fit in 64 bits. Decoding never panics.",
  ["inputs"], "all strings up to a length bound over a token alphabet of the grammar, plus the product of boundary values for every field",
  "Tests decode a handful of valid packets and no invalid one; the claim covers every payload a server can send.",
  [SO + "de.rs", SO + "mod.rs"], [("packet pattern and JSON array splitter", SO + "de.rs")], observe=["public decoder result"])

p("C05", "Engine.IO sessions follow open, traffic, close and keep payloads",
  "A session decoder accepts exactly one open packet first, then pings, pongs and text or binary messages in any number, and nothing after a close packet; anything else (traffic before open, a second open, malformed open data, unknown or empty packets, binary data without the message marker, control frames) is reported as an error and does not change what is accepted next. An accepted open carries the sid and intervals sent, an accepted message carries its payload verbatim, and what the encoders produce is accepted with the same payload.",
  ["histories", "inputs"], "all sequences of engine packets of the alphabet up to a depth bound from every session state",
  "Two tests decode one close frame and one open packet; the rule is about all histories.",
  [PR + "engine.rs"], [("session decoder state machine", PR + "engine.rs"), ("encoders", PR + "engine.rs")],
  [("session state", "initial, active or closed", PR + "engine.rs")], ["public decoder result"])

p("C06", "Placeholders resolve to the right attachment in every access path",
  "In a packet with attachments, every placeholder object of the protocol's form, at any depth of any argument, reads back as exactly the bytes of the attachment it numbers: as an array of numbers in dynamic access, and as bytes, borrowed bytes or a sequence of u8 in typed access, through options, newtypes, enums, tuples, maps, structs and sequences. Read as text it is the attachment when that is valid UTF-8, and an error otherwise. A number outside the attachments is reported as an error in both paths and never panics or yields other bytes.",
  ["inputs"], "all JSON argument shapes with placeholders up to a nesting bound, times all matching target types of the serde data model, times attachment counts",
  "Tests resolve one placeholder in one struct field; the claim covers every combination of type shape, position and attachment number.",
  [SO + "args/mod.rs", SO + "args/deserialize_attachments.rs"], [("placeholder-resolving deserializer", SO + "args/deserialize_attachments.rs"), ("dynamic placeholder fill", SO + "args/mod.rs")], observe=["public argument accessors"])

p("C07", "Attachments do not change how other arguments are read",
  "An argument value that contains no placeholder reads into every type with the same result (same value or same success/failure) whether or not the packet carries attachments, and equal to plain JSON deserialization of the argument's text. This includes map keys of every kind, escaped keys, enums, options, numbers, borrowed strings and strings read as bytes (except strings with lone surrogates, which are no valid Unicode).",
  ["inputs"], "all pairs of JSON value and target type of the serde data model up to a nesting bound",
  "Two passthrough tests cover one struct and one enum; equality of two deserializers over all value/type pairs is a universal statement.",
  [SO + "args/deserialize_attachments.rs", SO + "args/mod.rs"], [("forwarding deserializer and visitors", SO + "args/deserialize_attachments.rs")], observe=["public argument accessors"])

p("C08", "An owned subslice behaves like the slice it denotes",
  "An owned subslice, and any chain of subslices taken from it, reads, compares, prints, clones and (for mutable containers) writes exactly like the corresponding slice of the original data; taking a subslice whose end lies past the current view is clipped to the view. No view ever exposes an element outside its parent view.",
  ["inputs", "histories"], "all containers up to a length bound, all ranges and all chains of subslices up to a depth bound",
  "One test slices one string once; subslicing, clipping, equality, mutation and chains are untested.",
  ["owned_subslice/src/lib.rs"], [("range arithmetic of subslice", "owned_subslice/src/lib.rs")], observe=["public API of the container"])

p("C09", "Each received event reaches exactly the right handler once, in order",
  "Every event received is delivered exactly once, in arrival order, to the handler that is registered at that moment for its exact namespace and event name, otherwise to that namespace's fallback handler, otherwise to no one. The handler sees the arguments of that packet and no other; registering replaces, clearing removes only the named handler, and namespaces never influence each other.",
  ["histories"], "all histories up to a depth bound of registrations, clears, fallback changes and received events over colliding namespaces and event names, on a full client over a simulated connection",
  "The registry test makes three lookups on the registry alone; no test receives an event.",
  [CL + "callbacks.rs", CL + "receiver.rs", CL + "lib.rs"], [("handler registry", CL + "callbacks.rs"), ("packet dispatch", CL + "receiver.rs")],
  [("per-namespace event map and fallback", "handlers in force", CL + "callbacks.rs")], ["user callbacks of a real client"])

p("C10", "An acknowledgement runs exactly its own callback, exactly once",
  "Every emission with a callback carries an id no other emission of the client carries, and the first acknowledgement received for that namespace and id runs that callback (the last one given, if several were given while building), exactly once, with that acknowledgement's arguments (possibly none). An acknowledgement that matches no outstanding emission (unknown id, other namespace, or already answered) runs no callback and is reported as an error of the connection.",
  ["histories"], "all histories up to a depth bound of emissions with and without callback on colliding namespaces and acknowledgements in every order, including duplicates, wrong namespaces and unknown ids",
  "One registry test removes one entry; no test receives an acknowledgement or emits with a callback.",
  [CL + "callbacks.rs", CL + "receiver.rs", CL + "emit.rs"], [("id allocation", CL + "emit.rs"), ("pending acknowledgement table", CL + "callbacks.rs")],
  [("next id", "id of the next emission with callback", CL + "lib.rs"), ("pending acknowledgements", "callbacks by namespace and id", CL + "callbacks.rs")], ["user callbacks and bytes written by a real client"])

p("C11", "A handler can answer exactly the event that asked for an answer",
  "A handler receives a reply handle if and only if the event carried an id, and what is sent through that handle, immediately or later, from any thread and in any order with other replies, leaves the client as one acknowledgement carrying exactly that event's namespace and id and the given arguments. A handle that is dropped sends nothing.",
  ["histories", "schedules"], "all histories up to a depth bound of events with and without id in several namespaces and reply orders (immediate, deferred, reordered, dropped; text and binary)",
  "No test receives an event or sends a reply.",
  [CL + "receiver.rs", CL + "emit.rs"], [("reply builder", CL + "emit.rs"), ("dispatch passing the reply builder", CL + "receiver.rs")], observe=["bytes written by a real client"])

p("C12", "Behaviour does not depend on how the transport splits or delays data",
  "For a given byte stream from the server, however it is split into reads, delayed, or interleaved with temporarily unready or partially accepting writes, and whether or not the transport holds back what is written until it is flushed, the client runs the same callbacks with the same arguments in the same order, writes the same messages, and finishes with the same result; only answers still queued when the server itself closes the connection may be dropped. Progress never stalls while the transport is ready and data is pending.",
  ["schedules", "fault_sequences"], "all placements of up to a bounded number of short reads, unready reads, short writes and unready writes in sessions with text, binary and heartbeat traffic, and all task scheduling orders within the bound",
  "No test runs a connection at all.",
  [CL + "connection.rs", CL + "receiver.rs"], [("connection event loop", CL + "connection.rs")], observe=["callbacks and bytes written by a real client"])

p("C13", "Outgoing packets leave whole, once and in order",
  "Packets handed over for sending by the client, by reply handles and by heartbeat answers reach the transport exactly once and in the order they were handed over, whatever the schedule of threads and the readiness of the transport. The attachments of a binary packet follow their header directly and in order, never separated by another packet.",
  ["schedules"], "all interleavings up to a preemption bound of two or three senders with the connection task, with binary packets and write backpressure deviations",
  "No test sends anything over a connection; contiguity and order are properties of all interleavings.",
  [CL + "connection.rs", CL + "emit.rs", CL + "receiver.rs"], [("one queue item per packet", CL + "emit.rs"), ("queue drain loop", CL + "connection.rs")],
  [("outgoing queue", "packets waiting to be written", CL + "connection.rs")], ["bytes written by a real client"], "cfg-guarded scheduling points at mutex operations")

p("C14", "Every heartbeat ping is answered by exactly one pong",
  "On an open connection each engine ping received is answered by exactly one engine pong, including pings arriving between a binary packet's header and its attachments, in bursts, among events, or while the transport is temporarily blocked; nothing else produces a pong. A ping never disturbs the packets around it.",
  ["histories", "schedules"], "all orders up to a bound of pings, pongs, events and partial binary packets, with bounded transport deviations",
  "No test receives a ping.",
  [CL + "receiver.rs", CL + "connection.rs"], [("heartbeat answer", CL + "receiver.rs")], observe=["bytes written by a real client"])

p("C15", "Connecting ends in a usable client or an error, never a panic or hang",
  "Establishing a client on a given transport succeeds exactly if the WebSocket handshake succeeds and the server's open packet arrives, both within the connect timeout, and otherwise returns an error no later than that timeout. It never panics, and after an error no connection task remains and the transport is released.",
  ["fault_sequences", "schedules"], "all server behaviours of the alphabet (refusal, garbage, end of stream or I/O error at every byte boundary of interest, silence at every stage, wrong first packet, spawn failure) combined with timer firing at every scheduling step",
  "No test connects; the claim quantifies over every point at which the server can misbehave.",
  [CL + "connection.rs", CL + "lib.rs"], [("timeout select in connection setup", CL + "connection.rs")], observe=["result of connecting, state of spawned tasks, transport drop"])

p("C16", "Close flushes, terminates in time, and reports how the session ended",
  "Closing sends everything handed over before it, then a WebSocket close, keeps delivering what the server still sends, and returns success when the server ends the stream after a close handshake, the connection's error if it failed, or a timeout error no later than the close timeout. Afterwards no connection task remains, and closing again reports that the client is already closed.",
  ["schedules", "fault_sequences"], "all interleavings up to a bound of emissions, close, server traffic, server close, end of stream, I/O errors and the timer",
  "No test closes a connection; the loop picks among ready events in arbitrary order.",
  [CL + "connection.rs", CL + "lib.rs"], [("close signal, shutdown sequence and close timeout", CL + "connection.rs")], observe=["result of close, bytes written, callbacks"])

p("C17", "No server input panics the client; bad input ends in a reported error",
  "Whatever frames a server sends after the handshake, the client never panics, with logging enabled or not: it either processes them or ends the connection with an error that close reports. Handlers never see a packet that is malformed, and reading or printing any delivered argument never panics.",
  ["inputs", "histories", "configurations"], "all sequences up to a depth bound over an alphabet of valid, boundary and malformed frames (numbers out of range, lone surrogates, deep nesting, bad placeholders, wrong frame kinds), with logging off and at full verbosity",
  "No test feeds malformed input to the client, and no test runs with a logger installed.",
  [CL + "receiver.rs", CL + "connection.rs", SO + "de.rs", SO + "mod.rs", SO + "args/mod.rs", PR + "engine.rs"], [("error returns of decoder, packet parser and dispatch", CL + "receiver.rs")], observe=["panics, result of close, callbacks"])

p("C18", "Handlers may use the client freely while they run",
  "From inside an event handler or acknowledgement callback, a user may register, replace or clear any handler (including the one running), emit events with or without acknowledgement callbacks, and reply, without deadlock. Each such change is in force for the next packet processed, and the running handler completes normally.",
  ["histories", "schedules"], "all combinations up to a depth bound of operations performed inside handlers and callbacks, nested through further packets",
  "No test calls a handler from a connection, let alone one that uses the client.",
  [CL + "receiver.rs", CL + "callbacks.rs"], [("registry lock released before the handler runs", CL + "receiver.rs")],
  [("registry mutex", "guards the handler registry", CL + "lib.rs")], ["completion of handlers, deadlock detection"], "cfg-guarded scheduling points at mutex operations")

p("C19", "Handler changes are atomic with respect to packets arriving meanwhile",
  "When handlers are changed on one thread while packets are processed on another, each packet is dispatched according to the set of handlers in force at one single instant between its arrival and its delivery. No packet is lost, delivered twice, or delivered according to a mixture of two states, and no interleaving deadlocks.",
  ["schedules"], "all interleavings up to a preemption bound of a thread changing handlers and the connection task, for all short change sequences on colliding names",
  "Tests are single-threaded and never dispatch.",
  [CL + "callbacks.rs", CL + "receiver.rs", CL + "lib.rs"], [("registry mutex around lookup", CL + "receiver.rs")], [("registry", "handlers in force", CL + "callbacks.rs")], ["callbacks of a real client"], "cfg-guarded scheduling points at mutex operations")

p("C20", "The URL decides the endpoint and the handshake target",
  "http and ws URLs mean a plain connection and https and wss a TLS one, with default ports 80 and 443 unless the URL gives one; other schemes, hostless and unparsable URLs are reported as errors before anything is connected. The connector is called once with the URL's host (a plain address for IP literals) and effective port, and the handshake requests the URL's path and query with the engine.io version and websocket transport parameters appended, keeping every parameter the user gave.",
  ["inputs"], "the product of schemes, hosts, ports, user info, paths, queries and fragments of the alphabet",
  "One test parses three URLs; connector arguments and the request line are never observed.",
  [CL + "lib.rs", CL + "connection.rs"], [("URL parsing and query parameters", CL + "lib.rs")], observe=["connector arguments and handshake bytes"])

p("C21", "Dropping a client ends its task and releases everything",
  "When a client is dropped without being closed, at any moment and under any schedule, its connection task ends the next time it is scheduled, without running any further handler, and releases the transport and all handlers and pending callbacks. Reply handles that outlive the client can still be used or dropped without panic.",
  ["schedules", "fault_sequences"], "all placements of the drop among server traffic, emissions, blocked writes and task steps up to a bound",
  "No test creates a client.",
  [CL + "connection.rs", CL + "emit.rs"], [("task handle owned by the client", CL + "connection.rs")], observe=["task completion, transport drop, handler drop"])

p("C22", "An acknowledgement callback is in place before it can be needed",
  "However the emitting thread and the connection task interleave, and however fast the server answers, the answer to an emission always finds the emission's callback registered and runs it. Concurrent emissions, acknowledgements and registrations never lose, swap or deadlock callbacks.",
  ["schedules"], "all interleavings up to a preemption bound of an emitting thread, the connection task and a server that answers as soon as the packet is written",
  "The window exists only under particular interleavings of two threads; tests run one thread and no connection.",
  [CL + "emit.rs", CL + "receiver.rs", CL + "callbacks.rs"], [("callback registered before the packet is queued", CL + "emit.rs")], [("pending acknowledgements", "callbacks by namespace and id", CL + "callbacks.rs")], ["callbacks of a real client"], "cfg-guarded scheduling points at mutex operations")

p("C23", "Binary packets are delivered only whole, with their own attachments",
  "A received binary packet is delivered exactly once, only after exactly the announced number of binary messages has arrived, with those messages as its attachments in order; other engine traffic in between does not count. A missing, surplus or textual attachment ends the connection with an error and is never delivered, and the next packet starts clean.",
  ["histories"], "all sequences up to a depth bound of headers announcing 0 to several attachments, binary and text messages, heartbeats and complete packets, at protocol level and through a full client",
  "Two tests complete one packet with one attachment at protocol level; the reassembly state in the client is never exercised.",
  [CL + "receiver.rs", SO + "de.rs"], [("packet in progress", CL + "receiver.rs"), ("attachment count check", SO + "de.rs")],
  [("packet in progress", "header and attachments collected so far", CL + "receiver.rs")], ["callbacks of a real client, public decoder"])

p("C24", "Clients in one process do not influence each other",
  "However many clients a program runs, one after the other or at once, each behaves exactly as it would alone: it delivers only its own events and acknowledgements, sends only its own packets, numbers its own emissions, and ends with its own result, whatever happens to the others (traffic, errors, close, drop). This holds also when one handler is registered with several clients and when handlers use another client.",
  ["histories", "schedules"], "all histories of operations of two clients up to a depth bound, crowds of clients, and all schedules up to a deviation bound of two connections that share a handler or whose handlers use the other client",
  "No test creates a client; state that leaks through something shared shows only when several clients are used together in a particular order.",
  [CL + "lib.rs", CL + "callbacks.rs", CL + "connection.rs", CL + "emit.rs", CL + "receiver.rs"], [("per-client registry, queue and task", CL + "lib.rs"), ("handlers shared by reference", CL + "callbacks.rs")],
  observe=["user callbacks, bytes written and results of real clients"])

p("C25", "Received packets can be inspected whatever they contain",
  "For every packet the decoder accepts, the number of arguments, indexed access (nothing at or past the number, however large the index) and iteration agree with each other and with copies of the packet, and reading arguments into any type or printing arguments, packets and errors never panics, whatever the arguments contain (unresolvable placeholders, numbers out of range, invalid Unicode escapes, very deep nesting). An argument that can be read dynamically prints as JSON denoting the value read, attachments resolved; an argument list of such arguments prints as the JSON array of their values, and a packet prints its kind, id and arguments.",
  ["inputs"], "all values of the alphabets incl. hard-to-read and placeholder-shaped ones, in packets of every kind with and without attachments, all headers, all list lengths of the alphabet and all mixes of readable and unreadable arguments up to a length bound",
  "No test prints an argument that cannot be resolved or reads one that does not fit; the claim covers everything a server can send.",
  [SO + "mod.rs", SO + "args/mod.rs", SO + "args/deserialize_attachments.rs"], [("argument list access and printing", SO + "args/mod.rs"), ("packet printing", SO + "mod.rs")], observe=["public packet and argument accessors, Display and Debug"])

p("C26", "Nothing is kept longer than it is needed",
  "What a handler captures is released as soon as the handler is replaced or cleared everywhere it was registered, what an acknowledgement callback captures as soon as it has run or its emission is abandoned unsent, and a handler or callback still in force or outstanding is never released. Repeating the same traffic and calls over and over, however long, also with received event names, namespaces and ids and emitted event names that are new each time, leaves no growing amount of memory behind (packets, attachments, failed arguments, reply handles, answered ids, heartbeats).",
  ["histories"], "all histories of registrations, emissions, answers and replies up to a depth bound with tracked captures, and all rounds of session operations up to a length bound repeated hundreds of times with counted allocations",
  "No test runs a session, let alone a long one; a leak or an early release shows only after particular sequences, repeated.",
  [CL + "callbacks.rs", CL + "emit.rs", CL + "receiver.rs", CL + "connection.rs"], [("handler registry", CL + "callbacks.rs"), ("packet in progress", CL + "receiver.rs"), ("emission builders", CL + "emit.rs")],
  observe=["drops of values captured by handlers and callbacks; allocations alive"])

p("C27", "A client whose connection is over stays harmless",
  "Once the connection has ended for whatever reason (closed by the user or the server, cut off, read or write error, bad packet, close timeout, close given up), every operation of the client and of its reply handles, in any order and from any thread, still returns at once without panic. No handler or callback runs any more and nothing more is sent; close reports how the session ended the first time and that the client is already closed from then on.",
  ["histories", "schedules", "fault_sequences"], "twelve ways to end a session with packets, callbacks and reply handles under way, all sequences of client and handle operations up to a depth bound, before and after the task has noticed, and all interleavings with a replying thread up to a preemption bound",
  "No test uses a client after its connection ended; the outcome depends on how it ended and on what is done in which order afterwards.",
  [CL + "connection.rs", CL + "emit.rs", CL + "receiver.rs", CL + "lib.rs"], [("close and its result", CL + "connection.rs"), ("hand-over to the queue", CL + "emit.rs")],
  observe=["return values of a real client, callbacks, bytes written"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, s)
for x in P:
    n = x["statement"].count(". ") + 1
    if n > 3: print("long", x["id"], n)
print(len(P), "properties")
