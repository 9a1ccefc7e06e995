#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DEC = ["asn1/decode.go", "embertree/elementFactory.go", "embertree/root.go", "embertree/node.go",
       "embertree/parameter.go", "embertree/matrix.go", "embertree/matrix_element.go", "embertree/function.go",
       "embertree/invocation.go", "embertree/label.go", "embertree/signal.go", "embertree/connection.go",
       "embertree/content_parameter.go", "embertree/command.go"]
ENC = ["asn1/encode.go"] + [f for f in DEC[2:]] + ["embertree/element.go"]

p("C01", "No received bytes can crash decoding",
  "Decoding any byte sequence, as a BER value, as an Ember+ message or as a stream of S101 bytes, ends with a result or a reported error. It never panics (no nil dereference, out-of-range index, bad type conversion, negative allocation or write to an uninitialised map), and the nesting of a message cannot exhaust the stack.",
  ["inputs"], "every byte sequence handed to the public decoding entry points",
  "Hostile inputs form an unbounded space; the tests decode about a dozen well-formed packets.",
  DEC + ["socket/frame.go"], [("BER reader", "asn1/decode.go"), ("element decoding", "embertree/elementFactory.go"), ("frame decoding", "socket/frame.go")],
  "decode entry points of asn1, embertree and socket")

p("C02", "Decoding any finite input terminates",
  "Decoding a finite byte sequence always returns: every repetition during decoding consumes input or advances a bounded counter, including for unknown fields, unterminated sequences and degenerate numbers. An unknown field is either skipped as a whole or reported as an error.",
  ["inputs"], "every byte sequence; every loop and recursion reachable from decoding",
  "A hang needs an unusual field or number; tests decode only known fields.",
  DEC + ["socket/frame.go"], [("decode loops", "embertree/*.go Decode methods, asn1/decode.go")])

p("C03", "Decoding memory is bounded by the bytes received",
  "No length or number announced inside a message makes decoding allocate memory out of proportion to the bytes actually received. A length larger than what is left of the input is refused, or cut down to about what is there, before memory is allocated for it, and no repetition adds to a collection as often as a received number says.",
  ["inputs"], "every announced length in every message",
  "Needs hostile lengths of gigabytes, which no test contains.",
  ["asn1/decode.go", "socket/frame.go"], [("allocations while decoding", "asn1/decode.go")])

p("C04", "Decoding failures are always reported",
  "When any part of a message cannot be read, has an unexpected tag, length or type, or cannot be applied to the tree, the decoding call that met it returns an error. Decoding never reports success after such a failure, and a frame or message that could not be processed reaches the error handler. An unknown field of a node, which is read and skipped, is not a failure.",
  ["inputs"], "every failure position in every message",
  "Each failure position needs its own truncated or malformed input; the tests contain none.",
  DEC + ["socket/frame.go", "socket/client.go"], [("error returns of decode functions", "all Decode functions")])

p("C05", "Encoding failures are always reported",
  "When any part of a value, element or tree cannot be encoded, the encoding call returns an error instead of success with a partial message. A message that could not be encoded is not sent as if it were complete.",
  ["inputs", "fault_sequences"], "every encode function and every fallible step inside it, including user-provided contents",
  "Needs contents that fail to encode at each nesting position; the tests encode valid contents only.",
  ENC + ["socket/client.go"], [("error returns of encode functions", "all Encode functions")])

p("C06", "Typed BER reads accept exactly the tag their write emits",
  "Each typed read of a BER value (boolean, integer, 64 bit integer, real, string, octet buffer, relative object identifier) succeeds only if the value starts with the tag that the matching typed write emits. A value carrying any other tag is refused with an error.",
  ["inputs"], "every leading byte, for each typed read and write",
  "Tests read back a few values with the right tag and never a wrong one.",
  ["asn1/decode.go", "asn1/encode.go"], [("typed reads", "asn1/decode.go Read*"), ("typed writes", "asn1/encode.go Write*")])

p("C07", "Encoded sequences are balanced",
  "Every successful encoding closes exactly the sequences it opened, in the right order, whichever optional parts are present. The bytes written by a successful encode call always form complete nested BER items.",
  ["inputs", "programs"], "every combination of set and unset properties, children, labels, signals, connections and arguments",
  "The optional parts combine exponentially; the tests encode a few fixed shapes.",
  ENC, [("sequence start and end", "asn1/encode.go StartSequence, EndSequence")])

p("C08", "Both length forms are decoded and closed alike",
  "Whether a sequence uses definite or indefinite length, each decoder consumes exactly the item it decodes, including its end marker, and leaves the input positioned right after it. What follows the item is neither skipped nor re-read, and no part of the item is lost because of its length form.",
  ["inputs"], "every sequence of every decoder, in both length forms",
  "The tests use one length form per packet, mostly with nothing behind the item.",
  DEC, [("sequence start and end", "asn1/decode.go ReadSequenceStart, ReadSequenceEnd")])

p("C09", "Encoders and decoders agree on every field",
  "For every kind of object, each property is decoded from the field number and with the value type it is encoded under, into the same property. No field that is encoded is ignored or refused when decoded.",
  ["inputs", "programs"], "every property of every encodable object",
  "Round trips in the tests cover a few properties; a swapped or missing field shows up only for the others.",
  ENC + DEC[1:], [("field tables", "Encode and Decode methods of each object in embertree")])

p("C10", "A typed value is what was last stored in it",
  "A typed value reports the type of the last store and yields it only through the getter of that type; every other getter, and any getter on an unset value, returns an error. Copying, encoding and decoding a value preserve its type for all supported types, and a copy onto a value of another type is refused without changing it.",
  ["histories", "inputs"], "every sequence of stores and reads over all value types",
  "The tests store one type and read it back; mismatching getters, copies and some types are not exercised.",
  ["embertree/content_parameter.go"], [("typed value", "embertree/content_parameter.go ContentParameter")])

p("C11", "All element kinds are handled alike",
  "Parameters, nodes, matrices and functions, in plain and qualified form, and commands are each decodable, get the contents type of their kind and are treated as qualified, or as matrix, exactly when their tag says so. An element with an unknown tag is refused with an error.",
  ["inputs", "programs"], "all nine element tags and every other byte",
  "Tests decode three of the kinds.",
  ["embertree/elementFactory.go", "embertree/qualified_element.go", "embertree/matrix.go", "embertree/element.go"],
  [("kind dispatch", "embertree/elementFactory.go"), ("qualified tags", "embertree/qualified_element.go")])

p("C12", "Element paths are correct and independent",
  "The path of an element is its own path if it is qualified, and otherwise its parent's current path followed by its number; computing or using one element's path never changes another's. Looking an element up by path returns the element at exactly that path with its parent, and reports neither when an intermediate element is missing.",
  ["histories", "inputs"], "every tree shape, path length and sequence of path queries and moves",
  "Needs siblings at particular depths, moved elements or missing intermediates; the tests query one path.",
  ["embertree/qualified_element.go", "embertree/root.go", "embertree/element.go"], [("paths", "embertree/qualified_element.go GetPath"), ("lookup", "embertree/root.go GetElementByPath")])

p("C13", "Content properties are independent",
  "Each property of parameter, node, matrix and function contents returns from its getter what its setter stored, and setting one property never changes what another returns. The setters and constructors of matrix type and mode, and of a connection's operation and disposition, accept exactly their defined values.",
  ["histories", "inputs"], "every pair of properties of every contents type",
  "The tests set one property at a time.",
  ["embertree/parameter.go", "embertree/node.go", "embertree/matrix.go", "embertree/function.go", "embertree/connection.go"], [("accessors", "Set*/Get* of the contents types")])

p("C14", "Wire numbers are those of Ember+ and S101",
  "Element and structure tags, field numbers, universal BER tags, enumeration values of commands, matrices and connections, and S101 framing bytes are those of the Glow and S101 specifications. In particular encoded messages carry these numbers at every place the specification names, and a directory request for an element at any level contains the GetDirectory command.",
  ["inputs", "programs"], "every tag, field number and constant an encoder can emit",
  "A wrong number that encoder and decoder share round-trips; only an interoperability run would notice.",
  ["asn1/encode.go", "embertree/command.go", "embertree/signal.go", "embertree/connection.go", "embertree/function.go", "embertree/invocation.go", "embertree/label.go", "embertree/matrix.go", "embertree/node.go", "embertree/parameter.go", "embertree/qualified_element.go", "embertree/root.go", "socket/frame.go"],
  [("tags and constants", "embertree/*.go, asn1/encode.go, socket/frame.go")])

p("C15", "Tree updates merge, and never lose what they do not mention",
  "Applying a received element to an existing one of the same number and kind, in plain or qualified form, replaces only the contents and the matrix data that were received, updates known children and adds new ones. Parts that were not received stay as they were, and an update for another number or kind is refused without changing anything.",
  ["histories"], "every pair of existing and received element",
  "Merging depends on which of the parts either side has; the tests decode into empty trees.",
  ["embertree/element.go", "embertree/root.go", "embertree/elementFactory.go"], [("merge", "embertree/element.go Update"), ("message application", "embertree/root.go Decode")])

p("C16", "Every applied update notifies the listeners concerned",
  "When an update of an element, or new contents, is applied, every listener registered on that element is called with that element; when a message is decoded into a tree, every listener on the tree is called with the tree, and an element that gained a child by path has its listeners called. A listener that was removed, or never added, is not called.",
  ["histories", "inputs"], "every update, listener set and message",
  "Depends on which listeners are registered where; the tests register one listener and call it directly.",
  ["embertree/element.go", "embertree/root.go"], [("notification", "embertree/element.go, embertree/root.go")])

p("C17", "A log level passes exactly its own and more severe messages",
  "At each log level the console logger prints messages of that level and of every more severe level, and nothing less severe. The null logger never prints, and both return the level that was set.",
  ["configurations"], "every level and every log method",
  "No test observes log output.",
  ["logger/logger.go"], [("thresholds", "logger/logger.go")])

p("C18", "Only intact Ember frames are acted on",
  "A received frame reaches a handler only if its checksum over the unescaped bytes is valid and its slot, message, command and DTD fields are those of an Ember frame. The checksum is the S101 CRC for all byte values, and a message with other fields is reported and dropped.",
  ["inputs"], "every received frame; every entry of the CRC table",
  "Tests decode one valid frame; no invalid checksum or header is exercised, and two short CRCs touch few table entries.",
  ["socket/frame.go"], [("frame validation", "socket/frame.go HandleFrame, HandleEmberFrame, CalculateCRC")])

p("C19", "S101 escaping is unambiguous in both directions",
  "In an encoded frame the start and end bytes occur only as the frame's first and last byte: every other byte that needs it is escaped, whether it is payload or checksum. The stream decoder reverses exactly this escaping and treats every start byte as the beginning of a new frame, whatever preceded it.",
  ["inputs", "histories"], "every payload byte, checksum value and decoder state",
  "The tests' payloads and checksums contain no byte that needs escaping.",
  ["socket/frame.go"], [("escaping", "socket/frame.go EncodeMessage, finalizeBuffer, DecodeBuffer")])

p("C20", "Messages are split into and rebuilt from packets consistently",
  "A message is sent as one single packet or as a first packet, middle packets and a last packet, flagged so and in this order, with every payload byte in exactly one packet. The receiver starts a message at a first packet, appends every non-empty packet in order, delivers it once at the last packet and then starts afresh.",
  ["inputs", "histories"], "every message length and packet sequence",
  "The tests encode and decode messages of one packet.",
  ["socket/frame.go"], [("packets", "socket/frame.go EncodeMessage, HandleEmberFrame")])

p("C21", "Keep-alive requests are answered",
  "Every valid keep-alive request received on a connection is answered on that connection with a keep-alive response, and failing to send it is reported. A keep-alive response is never itself answered.",
  ["histories"], "every received keep-alive frame",
  "No test runs the client against a peer.",
  ["socket/client.go", "socket/frame.go"], [("keep-alive", "socket/client.go keep-alive handlers")])

p("C22", "The client follows its connection's life",
  "The client reports being connected from a successful connect until it disconnects or the peer closes or fails the connection, and can then connect again. Each connection is closed when it ends, has one service loop, and that loop ends with it; sending without a connection is an error, never a crash.",
  ["schedules", "fault_sequences"], "every interleaving of connect, disconnect, send, receive and connection loss",
  "The only client test needs an absent device.",
  ["socket/client.go"], [("connection state", "socket/client.go Connect, Disconnect, iomanager")])

p("C23", "Shared client and listener state is synchronised",
  "Requests may be issued, listeners added or removed, and the connection opened or closed from any goroutine while messages are received. The request queue, the connection, the listener sets and the request bookkeeping are each accessed under one lock only, which is always released, never held while a listener is called, and never acquired twice by one goroutine.",
  ["schedules"], "every interleaving of API calls with the service loop and timers",
  "Races need particular schedules; no test runs two goroutines.",
  ["socket/client.go", "embertree/element.go", "embertree/root.go"], [("locks", "socket/client.go, embertree/element.go, embertree/root.go")])

p("C24", "Requests complete once and leave nothing behind",
  "A directory request with a time limit reports one timeout if it is not answered in time and none after its response, and its timer and internal listener are gone once it is answered, timed out or refused. A tree request reports completion when its last outstanding part was answered, failed or timed out, and every part it starts is counted and accounted for exactly once.",
  ["schedules", "fault_sequences"], "every interleaving of responses, timeouts and queue failures",
  "Depends on the order of responses and timers; no test observes it.",
  ["socket/client.go"], [("request completion", "socket/client.go GetDirectory, GetTree, timers")])

p("C25", "Queries do not change what they query",
  "Reading properties, paths, text renderings, frames of a frame list, the type or number of bytes a reader has left, or the directory message of an element or tree (without a listener to add) changes neither the object queried nor any other object which existed before, so that repeating the query yields the same result, up to the order in which the children held in a map are visited. Encoding an element, a tree or a message leaves it and its input bytes as they were; only the writer it is encoded to grows.",
  ["histories"], "every query of every object, repeated any number of times",
  "Tests query once.",
  ["embertree/*.go", "socket/frame.go", "asn1/decode.go"], [("getters, ToString, Encode", "embertree/*.go"), ("frame lists", "socket/frame.go")])

p("C26", "Text output formats what it is given",
  "Every formatted text and log message supplies exactly the arguments its format asks for, of fitting types, and no received or user data is interpreted as a format. The text of parameter and function contents names each property it renders, with its value, when, and only when, it is set; so does that of matrix contents for the identifier and the description.",
  ["inputs"], "every formatting call and every combination of set properties",
  "Formatting is done in branches the tests do not reach, and its output is not compared.",
  ["embertree/*.go", "socket/*.go", "asn1/*.go", "logger/logger.go"], [("formatting", "ToString methods, log and error calls")])

p("C27", "Constructed objects are ready for use",
  "An object returned by a constructor can be used through all its methods at once: nothing a method or a goroutine it starts needs (collections, logger, queue, tree, decoder, handlers) is missing, given arguments made by the constructors too. No method, and not SetLogger given nil, leaves an object without a part which every constructor sets and another method needs.",
  ["programs", "configurations"], "every constructor and every method of the object",
  "Tests use each constructor with a few methods only.",
  ["embertree/*.go", "socket/*.go", "asn1/*.go", "logger/logger.go"], [("constructors", "New* functions")])

p("C28", "Numbers survive a round trip",
  "Every integer, real and object identifier decodes from its encoding to the same number.",
  ["inputs"], "every number",
  "Unbounded value space.",
  ["asn1/encode.go", "asn1/decode.go"], [("number encodings", "asn1/encode.go, asn1/decode.go")])

p("C29", "Length octets equal the content that follows",
  "Every primitive BER value that is written announces exactly the number of content bytes that follow it, in a valid length form, for every length that is accepted. A value too long to be announced is refused with an error.",
  ["inputs"], "every value of every primitive write, every content length",
  "Lengths over 127, 255 or 65535 bytes and long exponents do not occur in the tests.",
  ["asn1/encode.go"], [("lengths", "asn1/encode.go writeLength and the typed writes")])

p("C30", "Exchanges with a device converge in time",
  "Requests are answered within bounded time, and the tree equals the device's tree once all responses have arrived.",
  ["schedules", "histories"], "every exchange with every device",
  "Depends on timing and the peer.",
  ["socket/client.go", "embertree/root.go"], [("service loop", "socket/client.go iomanager")])

p("C31", "Requests are sent in the order they were issued, each once",
  "Every directory request which the client accepted is sent completely and exactly once while it stays connected, in the order in which requests were issued, whether before connecting, while others wait or while data is awaited; the packets of one message are sent in order with nothing in between. A request which cannot be queued is refused with an error and not sent, and the client never waits for data without a time limit, which would hold up requests issued meanwhile.",
  ["schedules", "histories", "inputs"], "every sequence of requests and turns of the service loop",
  "Tests send one request at a time, if any, and never fill the queue or a packet.",
  ["socket/client.go"], [("queue and service loop", "socket/client.go packetQueue, iomanager, sendBER")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
