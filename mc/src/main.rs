use mc::driver::{main as run, Check};

/// What every check of the codec relies on.
const CODEC: &[&str] = &[
    "the reference models in mc/src (packet grammar, JSON reader, placeholder rules, serde data model) are right; they share no code with the crates under test",
    "serde_json is the meaning of plain JSON serialization and deserialization",
    "inputs beyond the stated alphabets, lengths and nesting depths are not covered",
];
/// What every check of a full client relies on.
const CLIENT: &[&str] = &[
    "the simulated transport, server, executor and clock behave as real ones may; every readiness decision is the explorer's, within the deviation bound of the scenario",
    "sequentially consistent memory; threads switch at lock acquisitions, channel operations, transport calls, polls and handler boundaries only",
    "futures-timer, the channels of futures and select's random order are replaced by instrumented equivalents (shims/); everything else, async-tungstenite and std's locks included, is the real code",
    "histories, alphabets and deviation bounds beyond the stated ones are not covered",
];

#[global_allocator]
static HEAP: mc::heap::Counting = mc::heap::Counting;

fn main() {
    run(&[
        Check {
            id: "C01",
            rule: "every packet of the header product (kind, namespace, id, event name, text/binary) with every argument list of the value alphabet (all serde data-model shapes, byte data at every position, nested) is built by the real builder; the messages are read by the reference parser and compared with a reference serialization of the same values",
            assumptions: CODEC,
            scenarios: mc::codec::c01,
        },
        Check {
            id: "C02",
            rule: "every built packet of C01's space goes through the real session decoder and packet decoder; kind, namespace, id, argument count and every argument (as JSON value, and read into the type it was written from) are compared with what was put in",
            assumptions: CODEC,
            scenarios: mc::codec::c02,
        },
        Check {
            id: "C03",
            rule: "every sequence of argument additions up to the bound in which each addition succeeds or fails at every possible write position inside its value (the failure point is a choice); the finished packet is compared with the packet built from the successful additions alone",
            assumptions: CODEC,
            scenarios: mc::codec::c03,
        },
        Check {
            id: "C04",
            rule: "every string over the grammar's tokens up to the bound, every combination of boundary values of all fields, misplaced separators and JSON fragments is decoded by the real decoder and by the reference parser written from the packet grammar; kind, count, namespace, id, argument texts, acceptance and absence of panics are compared",
            assumptions: CODEC,
            scenarios: mc::codec::c04,
        },
        Check {
            id: "C05",
            rule: "every sequence of engine messages of the alphabet up to the depth bound is fed to a real session decoder beside a three-state reference session; acceptance, kind, payload and state after errors are compared at every step; encoders' output is fed back",
            assumptions: CODEC,
            scenarios: mc::codec::c05,
        },
        Check {
            id: "C06",
            rule: "every JSON shape with placeholders up to the nesting bound, read dynamically and into every matching type of the serde data model (driven by a dynamic Deserialize), with every attachment count; compared with the reference resolution",
            assumptions: CODEC,
            scenarios: mc::args::c06,
        },
        Check {
            id: "C07",
            rule: "every pair of JSON text without placeholders and target type of the serde data model up to the bound is read from a packet with attachments, from one without, and by serde_json; the outcomes must agree",
            assumptions: CODEC,
            scenarios: mc::args::c07,
        },
        Check {
            id: "C08",
            rule: "every container up to the length bound, every chain of subslice ranges (all bound kinds, past-the-end and extreme ends included) and write through it, compared with ranges of a plain slice",
            assumptions: CODEC,
            scenarios: mc::codec::c08,
        },
        Check {
            id: "C09",
            rule: "every history up to the depth bound of registrations, replacements, clears, fallback changes and received events over colliding names and namespaces on a real client; the handlers that ran, with their arguments, are compared with the reference registry after each step and by probing all names at the end; all pairs of confusable names; bursts of events in every order under read splits",
            assumptions: CLIENT,
            scenarios: mc::client_a::c09,
        },
        Check {
            id: "C10",
            rule: "every history up to the depth bound of emissions (with and without callback, abandoned, failing) and acknowledgements (every outstanding or answered id, wrong namespace, unknown id, text, binary, without arguments) on a real client; ids read off the wire, callbacks run and the result of closing are compared with the reference table",
            assumptions: CLIENT,
            scenarios: mc::client_a::c10,
        },
        Check {
            id: "C11",
            rule: "every history up to the depth bound of events with and without id and uses of the reply handles (at once, later, in any order, dropped; text, binary, failing arguments), and every interleaving within the bound of several replying threads with the task; the packets the server receives are compared with what was replied",
            assumptions: CLIENT,
            scenarios: mc::client_a::c11,
        },
        Check {
            id: "C12",
            rule: "for each session script (text, binary, heartbeat, mixed, fragmented, malformed, closed by the server, cut off) every placement of up to the bound of read lengths, unready reads, short writes, unready writes and flushes and spurious polls; callbacks, messages written and result must equal those of the model for the undisturbed session; anything left unread is a stall",
            assumptions: CLIENT,
            scenarios: mc::client_b::c12,
        },
        Check {
            id: "C13",
            rule: "every interleaving within the preemption bound of sending threads, reply handles and heartbeat answers with the connection task, with write backpressure; packets received must be whole, each once, and in the order they were handed over (recorded around the hand-over)",
            assumptions: CLIENT,
            scenarios: mc::client_b::c13,
        },
        Check {
            id: "C14",
            rule: "every sequence up to the bound of pings, pongs, events, binary headers and attachments, in a burst or one by one, with transport deviations; pongs received are counted and ordered against the pings sent, calls against the model",
            assumptions: CLIENT,
            scenarios: mc::client_b::c14,
        },
        Check {
            id: "C15",
            rule: "every server behaviour of the alphabet (answers, refusals, garbage, truncation at every byte, I/O errors, silence at each stage, wrong first packets, spawn failure) combined with timer and schedule deviations; the result must be success exactly for a complete setup in time, otherwise an error by the deadline with task and transport gone",
            assumptions: CLIENT,
            scenarios: mc::client_b::c15,
        },
        Check {
            id: "C16",
            rule: "every combination of what was queued before close, what the server sends meanwhile and how it ends the session (echo, end of stream, error, silence), with schedule, transport and timer deviations; result, time, messages received, calls and task state are compared with the expectation",
            assumptions: CLIENT,
            scenarios: mc::client_b::c16,
        },
        Check {
            id: "C17",
            rule: "every sequence up to the bound over an alphabet of valid, boundary and malformed messages and raw frames, and every one-byte corruption and truncation of valid messages, sent to a client whose handlers print and read every argument into many types, with logging off and fully on; no panic, calls as the model says, and close reports an error exactly when the model says the input is malformed",
            assumptions: CLIENT,
            scenarios: mc::client_d::c17,
        },
        Check {
            id: "C18",
            rule: "every choice of operations (register, replace, clear, fallback, emit with and without callback, reply) inside event handlers, fallbacks and acknowledgement callbacks up to the bound, with a server that answers emissions at once; the log is replayed against the reference registry with each change in force for the next packet; also against another thread using the client in every interleaving within the bound; a deadlock is a violation",
            assumptions: CLIENT,
            scenarios: mc::client_c::c18,
        },
        Check {
            id: "C19",
            rule: "every interleaving within the preemption bound of threads changing handlers (all change sequences of the alphabet) with the task delivering packets; each packet's outcome must be explained by one registry state between its arrival and delivery, states nondecreasing over packets; then all names are probed",
            assumptions: CLIENT,
            scenarios: mc::client_c::c19,
        },
        Check {
            id: "C20",
            rule: "the product of schemes, user info, hosts, ports, paths, queries and fragments, through connect, a failing connector and from_stream; connector calls, request line, Host header, user and engine.io parameters or the TLS ClientHello are compared with an independent expectation built from the parts",
            assumptions: CLIENT,
            scenarios: mc::client_d::c20,
        },
        Check {
            id: "C21",
            rule: "a client with handlers, pending callbacks, queued and blocked writes and unread server traffic is dropped by the main thread, another thread, an event handler or an acknowledgement callback, at every point and in every interleaving within the bound, or after the connection ended or while closing; then the task must be done, transport and handlers released, no handler started in a poll begun after the drop, and late reply handles harmless",
            assumptions: CLIENT,
            scenarios: mc::client_c::c21,
        },
        Check {
            id: "C22",
            rule: "every interleaving within the preemption bound of emitting threads, a registering thread and the task against a server that answers inside the write of the packet; callbacks run are compared with the emissions seen on the wire, and the session must stay healthy",
            assumptions: CLIENT,
            scenarios: mc::client_c::c22,
        },
        Check {
            id: "C23",
            rule: "every sequence up to the depth bound of binary headers with 0 to 3 attachments, attachments, text packets, heartbeats and wrong binary messages, one by one and in bursts with read splits, against the reference reassembly; at decoder level every header with every attachment list",
            assumptions: CLIENT,
            scenarios: mc::client_d::c23,
        },
        Check {
            id: "C24",
            rule: "every sequence of operations of two clients up to the depth bound, each client compared with its own operations played alone; crowds of clients; and two connections at work at once, with a handler in common or handlers that use the other client, under every schedule within the deviation bound",
            assumptions: CLIENT,
            scenarios: mc::client_e::c24,
        },
        Check {
            id: "C25",
            rule: "packets around every value of the alphabets (plain, hard to read, placeholder-shaped), every header with every argument list text, lists of many lengths and every mix of readable and unreadable arguments are enumerated, indexed, iterated, copied, read and printed by the real code under a panic guard; the access paths are compared with each other and with plain JSON",
            assumptions: CODEC,
            scenarios: mc::show::c25,
        },
        Check {
            id: "C26",
            rule: "every history up to the depth bound of registering, replacing, clearing, emitting, abandoning, answering and replying, with values held by each handler and callback: after every operation exactly the values of handlers in force and of outstanding callbacks are alive; and every sequence of session operations up to the length bound, repeated round after round: after 256 rounds the thread holds no more allocations and bytes than after 96 (counting allocator)",
            assumptions: CLIENT,
            scenarios: mc::client_f::c26,
        },
        Check {
            id: "C27",
            rule: "a session with stored reply handles, an outstanding callback and possibly half a binary packet is ended in each of 12 ways; then every sequence of operations up to the depth bound (emit, register, clear, reply, drop a handle, close) is done, before or after the task noticed, and by threads in every interleaving within the bound; no panic, nothing runs or is sent any more, close reports the outcome once, then that the client is closed",
            assumptions: CLIENT,
            scenarios: mc::client_f::c27,
        },
    ])
}
