#!/bin/bash
# Rewrites known-findings.txt: defects repaired in /repo (their checks pass now and report them again if they return).
cd "$(dirname "$0")/.."
c() { git -C /repo log --format='%h %s' | grep -F "$1" | head -1 | cut -d' ' -f1; }
{
echo "# Findings. 'known: property=<id> key=<key> <what>' lines are reported as KNOWN-FINDING; 'fixed:' lines suppress nothing."
f() { echo "fixed: property=$1 $(c "$2") $3"; }
f C04 "beyond u64" "decoding 2<21 digits>[\"e\"] or 5<21 digits>-[..] panicked (also reachable by a server through a client, C17)"
f C04 "first comma" "2/n,[\"a,b\"] style payloads: the namespace extended to the last comma of the payload"
f C04 "line breaks" "2[\"e\",<newline>1] was rejected although line breaks are JSON whitespace"
f C02 "acks without" "the built ack 430 (no arguments) and the wire form 430[] did not decode"
f C05 "received before open" "text message 4... accepted before the open packet"
f C17 "do not fit" "Arg::to_json_value panicked on numbers such as 1e999, lone surrogates and deep nesting"
f C17 "cannot be resolved" "printing (logging) an argument with an unresolvable placeholder panicked"
f C03 "opening bracket" "failing first argument of an ack lost the opening bracket: 431,2]"
f C01 "attachment header" "binary mode: sequence [1u8, \"x\"] was written with a leading 4: [4,1,\"x\"]"
f C08 "overflows" "subslice(a..usize::MAX) overflowed instead of being clipped"
f C07 "first key" "with attachments, a map whose first key is escaped, or is read as number, bool, option or newtype, failed to read"
f C06 "tuple variant" "a placeholder as the content of a tuple variant was not resolved"
f C07 "only read in part" "with attachments, 1.5 was read into i128 as 1"
f C06 "longer than the array" "an attachment of 3 bytes was read into [u8; 2] by dropping the rest"
f C15 "ends before open" "connecting panicked when the connection ended between the handshake and the open packet"
f C16 "handed over before closing" "packets emitted right before close were lost"
f C12 "server closes while answers" "a session the server closed ended in an error or not depending on how reads were split"
f C18 "release the handler registry" "a handler that registers, clears or emits with a callback deadlocked on the registry lock"
f C20 "IPv6" "the connector was given [::1] instead of the address ::1"
f C07 "strings over as bytes" "with attachments, a string read by a type that accepts only bytes failed"
} > known-findings.txt
