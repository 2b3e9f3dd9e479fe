#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
        **({"observe_at": observe} if observe else {}), hook_needed=None)))
DEC=["src/decode/decoder.rs","src/decode/message/header.rs","src/decode/message/message_struct.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/value/value_enum.rs"]
ENC=["src/encode/encoder.rs","src/encode/message/header.rs","src/encode/message/message_struct.rs","src/encode/value/basic_type.rs","src/encode/value/container.rs","src/encode/value/value_enum.rs"]
p("C01","A chunked byte stream yields each message once, in order, from its own bytes",
  "When frames are concatenated on a stream and arrive in arbitrary chunks, a receiver that repeatedly decodes the front of its buffer and drops the reported number of bytes obtains exactly the sent messages, each once, in order. The number of bytes reported for a message is exactly the length of its frame, and a message's content depends only on its own frame: bytes queued behind it, of any content, change neither the content nor the reported length. The same holds when some frames in the stream were produced by another implementation or in the other byte order.",
  ["inputs","schedules","histories"],"every sequence of valid frames (any size, type, byte order, producer), every split of the stream into chunks, every content of the bytes behind a frame, any delay or stall between chunks",
  "The tests decode one complete frame per buffer; none splits a stream, queues two frames or follows a frame with other bytes, and the number of splits is unbounded.",
  DEC,[("reads advance one offset which is returned as the consumed length","src/decode/decoder.rs Decoder::read, src/decode/message/message_struct.rs Message::decode"),("body is checked to end at the declared length","src/decode/message/message_struct.rs message_body")],
  [("offset","bytes of the buffer consumed so far","Decoder::offset")],["Message::decode return value","Message::decode_with_fds return value"])
p("C02","An incomplete frame is always reported as needing more bytes, with progress",
  "Decoding any proper prefix of a valid frame fails with the 'not enough bytes' error and with no other error and no success. That error reports the number of bytes that were available and an offset that is greater than it and not beyond the end of the frame, so a receiver that reads until it has the reported number of bytes and retries always makes progress, never waits for bytes of a later message, and completes after a bounded number of attempts. Failed attempts on prefixes have no effect on the final result.",
  ["inputs","schedules","crash_points"],"every valid frame, every cut position, every sequence of read sizes; the peer may stall forever after the last byte of the frame",
  "The tests truncate a handful of values at one or two positions; the claim is for every frame and every cut.",
  DEC,[("bounded slice read","src/decode/decoder.rs Decoder::read")],None,["DecodeError::NotEnoughBytes"])
p("C03","What is sent is what is received, through relays, storage and restarts",
  "A message that is encoded and later decoded - directly, after any number of relays that decode, possibly restamp the serial, and encode it again, or after being stored and re-read by a process that crashed and restarted - has the same type, flags, serial, header fields, value types and values as the original, in both byte orders. Values are preserved exactly, including the bit pattern of floating point numbers, the element type of empty arrays, and the order of dictionary entries. Encoding the same message again, in any process, yields the same bytes.",
  ["inputs","histories","crash_points"],"every message within the protocol limits and the documented variant depth, every path of encode, decode, split, rebuild, restamp, store, crash and restart steps",
  "The tests round-trip single hand-written values mostly in one byte order; nested alignment, container combinations and multi-hop histories are unbounded.",
  ENC+DEC+["src/message/message_struct.rs","src/message/header/fields.rs"],[("alignment relative to frame start","Encoder::algin / Decoder::algin"),("signature computed from the body","src/value/value_enum.rs to_signature_string")],None,["Message::encode","Message::decode","Message::split","Message::new"])
p("C04","Nodes interoperate with an independent implementation in both directions",
  "Every frame this library produces is read by an independent implementation of the D-Bus specification as the same message, and is laid out exactly as the specification says (byte order, alignment, zero padding, lengths, terminators, header field codes and types). Every frame an independent implementation produces within the documented limits - header fields in any order, either byte order, any legal nesting - is accepted by this library and read as the same message. Requests and replies exchanged between the two kinds of node carry the same content end to end.",
  ["inputs","histories","configurations"],"every message within the limits, every permutation of header fields, both byte orders, every mix of node implementations and directions",
  "Encode/decode round trips cannot see an error made symmetrically on both sides; the tests' golden frames are few and mostly little endian.",
  ENC+DEC+["src/value/type_enum.rs","src/message/header/fields.rs"],[("marshalling tables","src/encode/value/*.rs, src/decode/value/*.rs"),("alignment table","src/value/type_enum.rs get_alignment")],None,["Message::encode","Message::decode"])
p("C05","Damaged or forged frames are refused or read exactly as the bytes say",
  "Whatever happens to a frame on the wire - flipped, lost, inserted, duplicated or overwritten bytes, or hostile construction - the receiver either reports an error or obtains a message whose every field and value is what the specification assigns to exactly those bytes. It never accepts: non-zero padding, a boolean other than 0 or 1, invalid UTF-8, a missing string terminator, an ill-formed or over-long name, path or signature, a wrong type of header field, a duplicate header field, a missing mandatory header field, an array or body whose contents do not end exactly at its declared length, a body without signature or a signature without body, an unknown byte-order mark or message type, or nesting, array and message sizes beyond the limits.",
  ["inputs","fault_sequences"],"every frame and every sequence of corruptions of it, of any length, structure-aware or random, in either byte order",
  "The tests hold about a hundred single hand-made errors; corruption at every field of every frame shape, and combinations, are not enumerable by hand.",
  DEC+["src/message/header/fields.rs","src/message/header/header_struct.rs","src/value/type_enum.rs","src/value/object_path.rs","src/value/interface.rs","src/value/member.rs","src/value/error.rs","src/value/bus/mod.rs","src/value/bus/unique_connection_name.rs","src/value/bus/well_known_bus_name.rs"],[("validation while decoding","src/decode/**"),("name grammars","src/value/*.rs check()")],None,["Message::decode"])
p("C06","Hostile bytes cannot crash, hang or exhaust the process",
  "No byte sequence offered to the decoder or to a constructor of names, paths or signatures, and no text offered to the match-rule parser, makes the process panic, overflow an integer, exhaust the stack, loop, or use time or memory beyond what the bytes actually present, and the types they spell out for each value, account for: lengths and counts merely claimed in the bytes cost nothing, and nothing stays allocated once the outcome is dropped. Any message that is accepted can be encoded again, matched, printed, split and replied to without a panic. After any number of such inputs the receiver still processes valid messages.",
  ["inputs","fault_sequences","histories"],"every byte sequence and rule text, every nesting within and beyond the limits, every claimed length, followed by any use of the result",
  "The tests never bound time, memory or stack and try a few malformed inputs.",
  DEC+["src/value/type_enum.rs","src/match_rule/split.rs","src/match_rule/unescape.rs","src/match_rule/decode.rs"],[("checked offset arithmetic and slicing","src/decode/decoder.rs"),("depth limits","src/value/type_enum.rs check_depth, src/decode/value/container.rs variant"),("no allocation by claimed length","src/decode/value/container.rs d_array")],None,["Message::decode","MatchRule::decode"])
p("C07","File descriptors reach the right message, index and receiver queue position",
  "Encoding a message with descriptors returns each distinct descriptor once, in order of first use, and declares exactly that many in the header; every descriptor value in the body refers to its descriptor. A receiver that queues arriving descriptors and drops the reported number after each message gives every message exactly its own descriptors in any batching, including messages that carry descriptors their body does not mention and messages without any. If the descriptors a message declares or refers to are not available, decoding reports an error instead of delivering another message's descriptor, and later messages are unaffected.",
  ["inputs","histories","schedules","fault_sequences"],"every sequence of messages with any number, sharing and position of descriptors, any producer, every batching of bytes and descriptors, lost descriptors and forged counts or indices",
  "One or two tests pass a single descriptor; queues shared by several messages, duplicate descriptors and missing ones are not exercised.",
  ["src/encode/value/basic_type.rs","src/encode/message/header.rs","src/encode/message/message_struct.rs","src/decode/value/basic_type.rs","src/decode/decoder.rs","src/decode/message/message_struct.rs"],[("descriptor table of the encoder","src/encode/value/basic_type.rs unix_fd"),("descriptor queue offset","src/decode/message/message_struct.rs decode_with_fds")],[("fds","descriptors available to the message being decoded","Decoder::fds")],["Message::encode_with_fds","Message::decode_with_fds"])
p("C08","A reply always reaches its caller and answers exactly its own call",
  "A reply or error made from a received message is addressed to that message's sender, comes from its destination, carries its serial as the reply serial, keeps its byte order, is flagged as expecting no reply, and for errors carries the given error name and text; making it never alters the received message. A return made from something that is not a method call is an error reply instead. With unique serials, callers that match replies by sender and reply serial therefore complete each call exactly once with the answer to that call under any loss, duplication, reordering and retry, and every call completes once faults stop.",
  ["inputs","schedules","fault_sequences","histories"],"every received message (any type, any subset of header fields), any number of clients and services, every schedule of loss, duplication, delay, reordering, retry and service restart",
  "The tests build one reply per kind from one message in one process; concurrency of calls, retries and faults are not simulated.",
  ["src/message/header/header_struct.rs","src/message/message_struct.rs"],[("reply construction","src/message/header/header_struct.rs method_return, error, unknown_*, invalid_args")],None,["Message::method_return","Message::error","Message::unknown_*","Message::invalid_args"])
p("C09","A bus delivers a message to exactly the subscribers whose rules match it",
  "For every message and every list of match rules, matching says yes exactly when every rule in the list holds for the message as the D-Bus specification defines that rule: type, sender, interface, member, path, path namespace (including the root), destination, string argument, path argument (equal to or below the given path), and argument-0 namespace. A rule about something the message lacks, or about an argument of another type, does not match, and a rule list with no condition matches everything. A bus that routes by these answers thus delivers each message to exactly the subscribers that should get it, in order, as subscriptions come, go and are lost in crashes.",
  ["inputs","histories","schedules"],"every message, every rule list, every history of subscribe, unsubscribe, publish, disconnect and restart, and every delivery order",
  "The tests pair each rule kind with a few messages; boundaries (prefix that is not a component prefix, root, other types at the argument index, index beyond the body, combinations of rules) are unbounded.",
  ["src/match_rule/matching.rs","src/match_rule/arg.rs","src/match_rule/arg_path.rs"],[("rule evaluation","src/match_rule/matching.rs matching_rule, matching_rules, match_namespace")],None,["MatchRule::matching_rules","MatchRule::matching_rule"])
p("C10","Rule text survives the wire, storage and restarts, and damage is never misread",
  "Encoding any list of match rules to text and parsing it back yields the same list, whatever characters string arguments contain, in any later process; parsing any other legal quoting and escaping of such a list yields the list. Damaged or hostile rule text is refused or read exactly as the quoting grammar says; it never silently turns into rules with other keys, values or boundaries, unknown keys, bad values and unterminated quotes are refused, and re-encoding whatever was accepted yields text with the same meaning.",
  ["inputs","histories","fault_sequences","crash_points"],"every rule list and every argument string, every spelling of a rule text, every corruption of it, across any number of store, crash, restart and re-encode cycles",
  "The tests check a few escapes; the quoting grammar is context sensitive and its damage space unbounded.",
  ["src/match_rule/decode.rs","src/match_rule/encode.rs","src/match_rule/escape.rs","src/match_rule/unescape.rs","src/match_rule/split.rs"],[("splitting automaton","src/match_rule/split.rs"),("unescaping automaton","src/match_rule/unescape.rs"),("escaping","src/match_rule/escape.rs")],None,["MatchRule::decode","MatchRule::encode"])
p("C11","Concurrent use from many threads gives every thread the sequential results",
  "Any number of threads may encode, decode, match, parse and build replies at the same time, on shared or separate messages, starting from a process in which the library has never been used, and under every interleaving each operation returns what it returns when run alone. No interleaving deadlocks, panics or lets one thread's bytes, descriptors or errors appear in another's result. Every operation finishes once its own thread is scheduled.",
  ["schedules","inputs"],"every interleaving of the library's memory accesses and lock operations in 2 to 4 threads, each running several operations, including the very first use",
  "The tests are sequential within a process or race by chance; no test controls which thread initialises the shared state.",
  ["src/encode/message/header.rs","src/encode/message/message_struct.rs","src/decode/message/message_struct.rs"],[("lazily initialised shared constant","src/encode/message/header.rs ARRAY_TYPE"),("everything else is owned or borrowed data","src/**")],[("ARRAY_TYPE","element type of the header array, initialised on first encode","src/encode/message/header.rs")],["results of every public operation"])
p("C12","Every operation's outcome depends on its arguments only, never on history",
  "Every public operation gives the same result - value, bytes, offsets or error with its details - whatever operations ran before it in the process, whether they succeeded, failed half way, or served other connections, and whether the process is fresh or long-lived. Connections interleaved in one process do not influence one another. Operations do not modify messages or buffers passed to them by reference, and buffers handed out earlier keep their contents. An operation repeated for as long as a process lives neither changes its result nor loses memory each time.",
  ["histories","schedules","fault_sequences"],"every history of succeeding and failing operations, every interleaving of several connections, every pair of processes with different histories",
  "Each test runs a fresh short sequence; a dependence on history needs a particular earlier operation to show.",
  DEC+ENC+["src/match_rule/decode.rs","src/match_rule/matching.rs"],[("decoder and encoder objects are created per call","src/decode/message/message_struct.rs, src/encode/message/message_struct.rs")],None,["results of every public operation"])
p("C13","A sender never puts a frame on the wire that receivers must refuse",
  "Whatever message an application builds from the names, paths and other parts the constructors let it have, encoding either returns an error or yields a frame that is complete, within every protocol limit, and accepted by receivers as the same message: ill-formed names and paths, over-long signatures, over-deep types, arrays above 64 MiB, frames above 128 MiB, types that cannot be written, and bodies whose signature cannot be expressed are refused by a constructor or the encoder, and nothing within the limits is. Header fields left over from an earlier message - such as a body signature - never contradict the new body. Variants nested deeper than the four levels this library reads itself are refused or sent so that others can read them. A refusal leaves the message unchanged and later encodings unaffected.",
  ["inputs","histories","fault_sequences"],"every message that can be built with the public constructors (variants within the documented nesting), including header parts reused from other messages, at and beyond every limit",
  "The tests try three or four limits separately; combinations at the boundary and reuse of header parts are not tried.",
  ENC+["src/value/value_enum.rs","src/value/type_enum.rs","src/value/container.rs"],[("limits on encode","src/encode/value/container.rs array, src/value/type_enum.rs check_depth/check_len"),("header field override","src/encode/message/header.rs")],None,["Message::encode","EncodeError"])
p("C14","Object paths compose and dispatch component by component",
  "Appending an element to an object path either refuses it and leaves the path unchanged, or yields the valid path with exactly that one element added. One path lies below another exactly when its components extend the other's components; equal paths are not below each other, the root is above everything else, and a shared textual prefix alone does not count. The remaining components are reported completely and in order, so an object tree that routes calls by them reaches exactly the objects registered there while objects come and go.",
  ["inputs","histories","schedules"],"every pair of paths, every element text, every history of creating, removing and calling objects in a tree with delayed, duplicated and reordered requests",
  "The tests hold about twenty path pairs; component boundaries, the root and chains of appends are unbounded.",
  ["src/value/object_path.rs"],[("component-wise comparison","src/value/object_path.rs strip_prefix_elements, starts_with"),("element check","src/value/object_path.rs append")],None,["ObjectPath::append","ObjectPath::starts_with","ObjectPath::strip_prefix_elements"])
p("C15","Writing text into a failing or full sink reports the error and a clean prefix",
  "Writing any match rule, name, path, type or error as text into a sink that fails after any number of bytes reports that failure, and what the sink received is a prefix of the full text; with a sink that does not fail the full text is written. No failure panics, and a later attempt with a working sink yields the full text. Text never depends on how the sink splits or limits writes.",
  ["fault_sequences","inputs"],"every displayable value and every byte position at which the sink fails or is full, followed by retries",
  "The tests print into strings, which cannot fail.",
  ["src/match_rule/encode.rs","src/match_rule/arg.rs","src/match_rule/arg_path.rs","src/value/type_enum.rs","src/value/object_path.rs","src/value/bus/mod.rs","src/message/types.rs","src/decode/error.rs"],[("Display implementations propagate errors","impl Display in src/**")],None,["fmt::Display"])
p("C16","A name service admits exactly the names and paths the specification allows",
  "A service that builds bus, unique, well-known, interface, member and error names and object paths from what clients send - as bytes, as borrowed or owned text, in header fields of frames, or in match rules - admits a text exactly when the D-Bus specification allows it as that kind of name, including the 255 byte limit of names, and all of these ways agree. An admitted name comes back unchanged in every form it can be read in, tells unique from well-known bus names, and equals another exactly when the texts are equal. Requests altered on the link or on the disk are judged as what they have become, in this process and after any crash in later ones.",
  ["inputs","fault_sequences","crash_points","histories"],"every byte string offered as every kind of name by every way in, every corruption of it on the link and on disk, every crash and restart",
  "The grammars have infinitely many texts in seven kinds and three constructors each, decoded and parsed in two further places; the tests hold a few texts of each kind and never compare the ways in.",
  ["src/value/interface.rs","src/value/member.rs","src/value/error.rs","src/value/object_path.rs","src/value/bus/mod.rs","src/value/bus/unique_connection_name.rs","src/value/bus/well_known_bus_name.rs"],[("state machines","src/value/**/*.rs State::consume and check"),("constructors","impl TryFrom<&str>, TryFrom<String>, TryFrom<&[u8]>")],None,["TryFrom of the name types","AsRef<str>, Display, Into<String>, PartialEq<str>"])
p("C17","Tables keyed by names, paths, types or headers behave as their contents say",
  "Interfaces, members, error names, object paths and types in hash tables, and these together with bus names, header fields and headers in ordered tables and sorted lists, find, replace and remove exactly the entries whose contents are equal, however the keys were made (any constructor, decoded from a frame, from generic values) and whatever seeds the tables hash with. Ordering is total and consistent with equality, so that tables rebuilt in another order or in a later process are the same; filtering duplicates of messages and values by == removes exactly those with equal contents (floating-point comparison of not-a-number and of zeros aside), and partial ordering agrees with ==.",
  ["inputs","histories","schedules","crash_points"],"every set of keys, every history of insertions, removals and lookups in any order of arrival, every hash seed, every crash and rebuild",
  "The tests compare a few values with assert_eq; the laws relate any two or three values and the hash to equality, and break for particular pairs only.",
  ["src/value/value_enum.rs","src/value/type_enum.rs","src/value/container.rs","src/value/interface.rs","src/value/object_path.rs","src/value/bus/mod.rs","src/message/header/fields.rs","src/message/header/header_struct.rs","src/message/message_struct.rs"],[("equality, order and hash","#[derive] on the public types in src/value and src/message")],None,["PartialEq, Eq, PartialOrd, Ord, Hash of the public types"])
p("C18","Header fields handled as generic values are kept exactly or refused",
  "Gateways that take header fields apart into generic values and put values together into header fields, in any order and over any number of hops, keep every field exactly: taking apart yields each present field once with its code and nothing else, putting together yields exactly the fields the values say. A repeated field, code 0, a value of another type or shape, or an ill-formed name is refused and never yields some other set of fields. A header is made from fields exactly if its message type has the fields it requires, reports the fields it was given, and carries them unchanged through frames and into later processes.",
  ["inputs","histories","fault_sequences","crash_points"],"every set of header fields, every list of generic values, every sequence of reorderings, losses, duplications and replacements over any number of gateways, every crash of one",
  "The tests convert single fields one at a time; order, repetition, mixtures, other values and chains of conversions are unbounded.",
  ["src/message/header/fields.rs","src/message/header/header_struct.rs"],[("conversions","src/message/header/fields.rs try_set_field!, add_to_vec!, unwrap_value"),("required fields","src/message/header/header_struct.rs check_header_fields")],None,["TryFrom<Vec<Value>> for MessageHeaderFields","From<MessageHeaderFields> for Vec<Value>","MessageHeader::new"])
p("C19","Type signatures survive printing, storage, damage and restarts",
  "Parsing a signature or a single type from text or bytes succeeds exactly if the text is within the D-Bus grammar and its limits of 255 bytes and 32 levels of arrays, structures and dict entries each, and the result has exactly the structure and alignment the text says; printing it gives that text again, in every later process. Printing a type an application made either gives the text that parses to this type or refuses types that cannot be written: empty structures, too deep or too long ones. Damaged signature text, on disk or in a frame, is refused or read as exactly what it has become.",
  ["inputs","histories","fault_sequences","crash_points"],"every signature text, every type, every corruption of a text, across any number of store, crash, restart and print cycles",
  "The tests parse and print some signatures; the grammar is recursive, has four interacting limits, and damage leads anywhere.",
  ["src/value/type_enum.rs"],[("recursive parser","src/value/type_enum.rs next_type"),("printer","src/value/type_enum.rs try_to_string, Display"),("limits","src/value/type_enum.rs check_depth, check_len")],None,["Type::from_string_to_signature","Type::from_bytes_to_signature","Type::from_signature_to_string","TryFrom<&str> for Type"])
p("C20","A refusal states truthfully what is wrong with the input",
  "When a frame from a peer, a name, path, signature or match rule text, or the parts an application gives for a message, a header, header fields, an array or a structure are refused, the returned error is true of what was given: every kind, number, character, position count, limit, field, type and value it carries is that of the input. A frame whose only fault is one thing (a padding byte, a boolean, a terminator, bad UTF-8, an ill-formed name, path or signature, a missing, repeated or mistyped header field, too deep variants, a wrong body or header length, descriptors that did not come) is refused for that fault, with its details, and a rule for its faulty part. The text of an error contains the numbers and values it carries and the text of its cause, is never empty and never states a false inequality or names another field. A later process refuses the same input with the same error and text.",
  ["inputs","histories","fault_sequences","crash_points"],"every faulty frame, text and part of a message, every place and kind of fault, every history of refusals, crashes and second looks in another process",
  "The tests pin the error of a few inputs and never read a text; that an error is true of its input relates every refusal to every input and place of the fault.",
  ["src/decode/error.rs","src/encode/error.rs","src/decode/decoder.rs","src/decode/message/header.rs","src/decode/message/message_struct.rs","src/decode/value/basic_type.rs","src/decode/value/container.rs","src/decode/value/value_enum.rs","src/message/header/fields.rs","src/message/header/header_struct.rs","src/match_rule/mod.rs","src/value/type_enum.rs","src/value/interface.rs","src/value/member.rs","src/value/error.rs","src/value/object_path.rs","src/value/bus/mod.rs","src/value/bus/unique_connection_name.rs","src/value/bus/well_known_bus_name.rs","src/value/container.rs"],[("errors with details and texts","#[derive(Error)] enums in src"),("where they are raised","src/decode, src/value constructors, src/match_rule/mod.rs MatchRule::decode")],None,["DecodeError, EncodeError, MatchRuleError, TypeError, MessageHeaderError, MessageHeaderFieldsError, the errors of names; their Display and source()"])
p("C21","A property reads back as it was last set, whatever was lost or restarted",
  "Clients read, write and list the properties of objects with Get, Set and GetAll made by this library, over a link that loses, duplicates, delays and reorders and with retries, while the service crashes at any point and recovers from a log of the requests, taken apart and put together. Every read returns exactly the value last set - its type, content and variant wrapping - and a listing exactly the properties with their values; every call completes after the faults stop; watchers get exactly the change signals. A message assembled value by value holds exactly the values that were put in, in order, and the signature and the header fields that belong to them, at every step; a copy is not affected by what is added to another; splitting and joining give the same message, and taking values to their parts and making them again the same values.",
  ["inputs","histories","schedules","fault_sequences","crash_points"],"every set of objects, property names and values of every type, every history of reads, writes and listings by any clients, every loss, duplication, delay, crash and torn write",
  "The tests make one Get, Set or GetAll and compare its bytes; none follows a value through writing, storing, restarting and reading, or looks at messages between the steps that build them.",
  ["src/message/message_struct.rs","src/message/header/header_struct.rs","src/message/header/fields.rs","src/value/container.rs","src/value/value_enum.rs","src/decode/value/container.rs","src/encode/value/container.rs","src/encode/message/header.rs","src/match_rule/matching.rs"],[("constructors of property calls","src/message/message_struct.rs property_get, property_set, properties_get_all"),("assembling and splitting","src/message/message_struct.rs add_value, split, new"),("types of values","src/value/value_enum.rs get_type; src/value/container.rs")],None,["Message::{property_get,property_set,properties_get_all,add_value,split,get_*}","TryFrom and From of Value, Array, Struct"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
