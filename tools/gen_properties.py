#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))
PA="ublox/src/parser.rs"; PK="ublox/src/ubx_packets/packets.rs"; DO="ublox_derive/src/output.rs"
TY="ublox/src/ubx_packets/types.rs"; CV="ublox/src/ubx_packets/cfg_val.rs"; UP="ublox/src/ubx_packets.rs"
it=("ParserIter::next / extract_packet",PA); db=("DualBuffer (take, drain, peek_raw, Drop)",PA); co=("Parser::consume",PA)
buf=("Parser.buf","bytes kept between two reads",PA); off=("DualBuffer.off / new_buf_offset","how much of the kept and of the new bytes is already used",PA)

p("C01","Results do not depend on how the byte stream is cut into reads",
 "With a growable buffer, the sequence of packets and errors an application gets from a byte stream depends only on the bytes: however the stream is cut into reads (single bytes, cuts inside headers, lengths, payloads or checksums, empty reads, one huge read), draining the iterator after each read yields, in total, exactly what one single read of the same bytes yields. It is also timely: after each read, everything that a single read of the bytes received so far would yield has already been yielded, and nothing else.",
 ["schedules","inputs"],"every byte stream (messages, noise, corruption) and every way of cutting it into reads",
 "Tests feed a handful of fixed streams with two or three hand-picked cuts; the guarantee is over all cuts of all streams, and the two-buffer bookkeeping has different paths depending on where a cut falls.",
 [PA],[it,db,co],[buf,off],["Parser::consume","ParserIter::next"])
p("C02","Every intact message is delivered exactly once, in order",
 "With a growable buffer, every UBX message (with a payload of at most 8176 bytes, the largest message described) that arrives intact is delivered exactly once and in arrival order with its class, id and payload unchanged, whatever surrounds it: other protocols (NMEA, RTCM), noise, stray sync bytes, false or truncated headers, oversized length fields, corrupted messages, messages embedded in other messages' payloads, and any timing of reads. The only exception is a message that overlaps an earlier byte range which itself is a complete message with a correct checksum.",
 ["inputs","schedules","fault_sequences"],"every mix of messages and other bytes, every line fault that leaves the message itself intact, every read schedule",
 "Tests check a few clean frames and a few hand-made garbage prefixes; delivery must survive every adjacency of garbage and messages at every read boundary.",
 [PA],[it,db,co,("resynchronisation: skip to the next possible sync byte after a rejected candidate",PA)],[buf,off],["ParserIter::next"])
p("C03","Nothing is fabricated: each packet is a checksummed span of the stream",
 "Every packet the parser delivers, with any kind of buffer, corresponds to one contiguous run of received bytes (not counting bytes that a full fixed-size buffer had to turn away because the application had stopped early) that starts with the two sync characters, has a matching length field and a correct checksum; the packet's class, id and payload are exactly those bytes. Spans of successive packets are disjoint and in stream order, so no received byte is ever used in two packets.",
 ["inputs","schedules","fault_sequences"],"every stream incl. corrupted, duplicated, reordered and truncated traffic; every read schedule; growable, fixed-size and user buffers; early stops",
 "Tests compare a few good frames; they never check that a delivered packet was really on the wire after losses, partial reads, early iterator drops or buffer overflow.",
 [PA],[it,db,("checksum comparison",PA)],[buf,off],["ParserIter::next","PacketRef"])
p("C04","Bounded recovery once faults stop",
 "After any sequence of line faults (bit errors, lost, duplicated, reordered or inserted bytes, baud mismatch, receiver resets, host read stalls that overrun the UART FIFO, a host restart that discards the parser), as soon as bytes flow cleanly again every message that starts after the last fault and fits the buffer is delivered. A message is delayed by leftover damage at most until 8184 bytes (the largest frame) have been received counting from just before its own start.",
 ["fault_sequences","crash_points","schedules","inputs"],"every fault sequence, every instant at which faults stop or the host restarts, every read schedule",
 "Tests contain no link faults and no restarts; recovery is a liveness guarantee over histories.",
 [PA],[it,("length limit MAX_PAYLOAD_LEN",PK),("resynchronisation",PA)],[buf],["ParserIter::next"])
p("C05","A fixed-size parser stays in its memory, delivers what fits, reports the rest",
 "A parser built on a caller-supplied region of N bytes (N at least 4) never writes outside the region and never holds more than N bytes. With the iterator drained after each read, every intact message whose whole frame is at most N bytes long is delivered under every segmentation; a larger message is either delivered or reported as an out-of-memory error naming its size (with or without the header), never silently lost, and parsing goes on with the following messages.",
 ["configurations","inputs","schedules","fault_sequences"],"every region size from 4 bytes, every stream and fault sequence, every read schedule",
 "Tests use three buffer sizes and four streams; overflow paths depend on size, message length, leftovers and cut position together.",
 [PA],[("FixedLinearBuffer",PA),db,it,("potential_lost_bytes / can_drain_and_take",PA)],[buf,off],["Parser::consume","Parser::buffer_len","ParserIter::next"])
p("C06","Stopping early or a panicking handler loses and repeats nothing",
 "If the application stops before the iterator is exhausted (it breaks out after any number of items, never polls at all, or its own packet handler panics), then with a growable buffer the undelivered messages and errors come out of the following reads, in order, none lost and none repeated. With a fixed-size buffer the unread bytes are kept from the first one on, up to the buffer's capacity.",
 ["crash_points","schedules","inputs"],"every stopping point in every read, every stream, every following read schedule",
 "Existing tests always drain the iterator; the commit-on-drop path with leftovers is never combined with early exits or unwinding.",
 [PA],[("Drop for DualBuffer",PA),db],[buf,off],["Parser::consume","ParserIter drop","Parser::buffer_len"])
p("C07","The parser keeps only what an unfinished message needs",
 "After a read has been drained, a parser with a growable buffer holds exactly the bytes from the start of the first still undecidable candidate message: nothing when the stream so far ends with a finished message or with bytes that cannot start one, and never more than 8183 bytes. The reported buffer length and emptiness always equal the number of received bytes that were neither consumed nor discarded.",
 ["inputs","schedules","histories"],"every stream and read schedule, at every point of a run of any length",
 "Tests look at the buffer length in a few one-shot cases; boundedness is about unbounded histories with noise.",
 [PA],[("Parser::buffer_len / is_buffer_empty",PA),db,it],[buf],["Parser::buffer_len","Parser::is_buffer_empty"])
p("C08","Errors are truthful and reported once",
 "With a growable buffer the parser reports a checksum error exactly when a complete candidate message (two sync characters, admissible length) ends in the wrong checksum, once per candidate, in stream order relative to the packets, carrying the checksum found in the stream and the checksum computed over the bytes, both of which its text names. It reports no other error, and none at all on streams of intact messages and other traffic free of sync characters.",
 ["inputs","fault_sequences","schedules"],"every stream, line fault and read schedule",
 "Tests check one bad checksum in one stream; exactly-once and no-false-error are over all streams and cuts.",
 [PA,"ublox/src/error.rs"],[it,("UbxChecksumCalc",PA)],[buf],["ParserIter::next"])
p("C09","No byte stream can crash or hang the application",
 "No sequence of received bytes, however cut, corrupted or adversarial, makes the library panic, abort, loop forever or return an endless sequence of items, neither while parsing nor while calling any accessor, nested iterator, debug formatting or serialisation on the packets delivered. The number of items yielded never exceeds the number of bytes received.",
 ["inputs","fault_sequences","schedules"],"every byte stream, including checksum-correct messages with arbitrary payloads for every known class, id and length",
 "Tests decode a few real recordings; reserved or unexpected field values from newer receivers never occur there.",
 [PA,PK,DO],[("validate() per packet",DO),("bit-field decoders",PK),it],[],["ParserIter::next","all packet accessors","Debug","Serialize"])
p("C10","A message is typed exactly when it matches its description",
 "A delivered message is given its specific packet type if and only if its class and id are known, its length matches that packet's description and its restricted fields hold allowed values; every other checksum-correct message is delivered as an unknown packet with identical class, id and payload. No well-formed message is turned into an error, dropped or given another message's type.",
 ["inputs","schedules","fault_sequences"],"every class, id, length and payload; messages interleaved with any other traffic",
 "Tests decode one sample of some packets; the mapping covers 56 packet types, three of which share one class and id, with length and value boundaries.",
 [PK,DO],[("match_packet",DO),("validate()",DO)],[],["PacketRef variant","class_and_msg_id","as_bytes"])
p("C11","Decoded fields equal what the device sent",
 "For every known message, each field read through its accessors (scaled, raw, flags, enumerations, strings and repeated blocks) and through serialisation equals the value the device encoded at that field's documented position, width, signedness, byte order and scale; repeated blocks come out completely and in order, however their list is walked.",
 ["inputs","histories"],"every packet type, every field value the wire can carry, in messages received through arbitrary read schedules and link conditions",
 "Tests decode single samples for some packets; most fields, sign and range boundaries, and reserved values are never checked.",
 [PK,DO],[("generated accessors (get_raw_field_code)",DO),("map_type / scale attributes",PK),("bit-field types and block iterators",PK)],[],["accessors","Serialize"])
p("C12","Position, velocity and time derived from messages are physically right",
 "Along any trajectory and clock history a receiver reports, the position (degrees, metres; high-precision parts included), Earth-centred position (metres), velocity and UTC time the library derives equal the receiver's true values to within the message's resolution, including negative coordinates and sub-second offsets that cross second, minute, day and year boundaries. Date, time and sub-second values that do not exist are reported as the matching error (also in its text), never as a wrong time or a crash.",
 ["histories","inputs"],"every trajectory, clock jump, leap second, rollover and invalid date a receiver can report",
 "Tests check one position and one timestamp; units and carry across boundaries are not covered.",
 [TY,PK],[("From<&NavPosLlhRef> etc.",TY),("TryFrom<&NavPvtRef> for DateTime<Utc>",TY)],[],["Position","PositionECEF","Velocity","DateTime<Utc>"])
p("C13","Parsers are independent of each other",
 "Several parsers in one process, each on its own port, with their reads, partially drained iterators, packets still in use and early stops interleaved in any order and on any thread, each produce exactly what they would produce alone.",
 ["schedules","inputs"],"every interleaving of reads and iteration over several ports",
 "Tests use one parser at a time.",
 [PA,PK],[("no shared state: each Parser owns its buffer",PA)],[buf],["Parser","ParserIter"])
p("C14","Any buffer that honours the storage contract works",
 "A parser on a user-supplied buffer that implements the documented storage contract only uses it within that contract: it never reads beyond the stored length, never removes more bytes than are stored, and copes with the buffer taking only part of what is offered. It then delivers the same packets and errors as a built-in fixed-size buffer of that capacity, or a growable one when the capacity is never reached; where the store holds more than the capacity it promises, messages longer than promised may be delivered or reported as too long.",
 ["configurations","inputs","schedules"],"every contract-conforming buffer (capacity, larger real capacity, default or custom search), stream and read schedule",
 "Tests run only the two built-in buffers, both of which tolerate some misuse.",
 [PA],[("UnderlyingBuffer trait",PA),db],[buf,off],["UnderlyingBuffer calls","ParserIter::next"])
p("C15","Writing a command to a failing sink is all-or-error",
 "When a command is written through a caller-supplied sink, success means the sink received exactly the one well-formed frame and had been asked beforehand to reserve at least its length; if any reserve or write call of the sink fails, that same error is returned (and its text tells the sink's), nothing more is written after the failure, and what was written before is a prefix of the correct frame.",
 ["fault_sequences","crash_points","inputs"],"every command type and content, every sink failure point and kind",
 "Tests write to a growable vector that never fails.",
 [DO,UP],[("create_packet",DO),("MemWriter",UP)],[],["UbxPacketCreator::create_packet","MemWriter"])
p("C16","Queued commands never damage each other",
 "Appending commands of any kind, variable-length ones included, to an outgoing buffer that already holds bytes leaves those bytes unchanged and adds exactly one well-formed frame, so a receiver fed with the buffer at any moment and in any pieces gets every queued command once, in order and unaltered.",
 ["histories","schedules","inputs"],"every sequence of queued commands, flushes and partial writes",
 "Tests and documentation examples only extend an empty buffer.",
 [DO,UP],[("extend_to",DO),("impl MemWriter for Vec<u8>",UP),("create_packet",DO)],[("outgoing Vec","frames queued but not yet sent","application")],["extend_to","create_packet","into_packet_vec"])
p("C17","A device receives exactly the command the application built",
 "Every command and poll request, built through any of the offered forms (fixed frame, conversion, writer, vector), reaches a receiver as one well-formed frame with the documented class, id and length that carries exactly the values set by the application (and, for a builder started from its defaults, the documented defaults in every field not set: zero, except the navigation engine's airborne <4g platform and automatic 2D/3D fix and the SPI port number), floating-point settings rounded to the nearest wire unit and clamped to the field's range; all forms give the same bytes.",
 ["inputs","histories"],"every command type and field value, in any sequence over a link with arbitrary segmentation",
 "Tests compare a few builders with recorded bytes.",
 [DO,PK,UP],[("into_packet_bytes / create_packet",DO),("ScaleBack rounding",PK),("into_raw of flags and enumerations",PK),("UbxPacketRequest",UP),("ubx_checksum",UP)],[],["into_packet_bytes","create_packet","device decoder"])
p("C18","Acknowledgements are attributed to the right command",
 "An acknowledgement or rejection is recognised as belonging to a command type exactly when it names that type's class and id, so a host that retries until acknowledged over a lossy, corrupting, duplicating and delaying link with device resets never takes a command for accepted that the device did not accept (with at most one command of a type outstanding, as the protocol's acknowledgement names only the type). Once faults stop, every command is resolved (accepted or rejected) within a bounded number of retries.",
 ["fault_sequences","schedules","histories"],"every loss, duplication, corruption, delay and reset pattern on both directions; every mix of commands",
 "Tests do not run a session; two flag checks are not tested against other message types.",
 [PK,PA,DO],[("is_ack_for / is_nak_for",PK),("UbxPacketMeta CLASS/ID",DO),("Parser",PA)],[],["AckAckRef","AckNakRef","device state"])
p("C19","Changing one setting leaves the others alone",
 "Reading a configuration message from the device, copying its decoded settings into the corresponding command with one setting changed and sending it back changes exactly that setting in the device: every other documented setting keeps its value bit for bit, over any number of such cycles and any link segmentation.",
 ["histories","inputs","schedules"],"every configuration message that can be both received and sent, every stored value, every sequence of changes",
 "Tests never feed a decoded configuration back into a builder.",
 [PK,DO],[("map_type from / into_raw pairs",PK),("ScaleBack",PK)],[("device configuration","settings stored by the receiver","simulated device")],["accessors","builders","device state"])
p("C20","Keyed configuration reaches the device item by item, unaltered",
 "A configuration transaction holding any list of key/value items (up to the documented 64) is received by the device as exactly those keys with exactly those values, in order, in the chosen layers, with each value in the storage size its key prescribes; items read back from stored configuration bytes equal the items written, whatever follows them.",
 ["inputs","histories","schedules"],"every list of the 434 supported keys and their values, in sequences of transactions over a segmented link",
 "Tests encode a handful of keys.",
 [CV,PK,DO],[("cfg_val! table, write_to, extend_to, parse, len",CV),("CfgValSetBuilder::extend_to",DO),("CfgValIter",PK)],[],["CfgValSetBuilder","CfgVal::parse","CfgValIter","device store"])
p("C21","The command-line tool configures what it was asked and waits correctly",
 "The command-line tool opens the port with the serial settings given on its command line, sends the receiver exactly the configuration asked for, goes on only after the receiver acknowledged that command (whatever else the receiver sends meanwhile, in whatever pieces, and even if it never pauses), and once it has sent all its requests prints every navigation solution with a valid fix.",
 ["schedules","fault_sequences","configurations","inputs"],"every option combination, every device traffic pattern, read timing, timeout and interrupted read",
 "The tool has no tests.",
 ["examples/ublox-cli/src/main.rs"],[("Device::update / wait_for_ack / read_port","examples/ublox-cli/src/main.rs"),("option parsing","examples/ublox-cli/src/main.rs")],[("Device.parser","parser kept across reads","examples/ublox-cli/src/main.rs")],["serial port calls","stdout"])
p("C22","Feature and build choices do not change behaviour",
 "The library built without the standard library (with or without heap allocation support), or optimised without debug assertions and overflow checks, parses and builds exactly what the default build does: for the same received bytes, reads and buffers the packets, errors and kept bytes are the same, and the same commands give the same frames.",
 ["configurations","inputs","schedules"],"every supported feature combination, with and without optimisation and checks; every stream, read schedule and fault sequence",
 "Tests run with default features and debug assertions only.",
 ["ublox/src/lib.rs",PA,UP,"ublox/Cargo.toml"],[("cfg(feature) gates","ublox/src/lib.rs")],[buf],["ParserIter::next","builders"])
p("C23","Assistance data tells the receiver the right place and time",
 "At whatever moment of the host's clock in the years 2000 to 2099 and for whatever position assistance data is prepared, the receiver decodes from it that same UTC date and time to the second with its nanoseconds, and that same position to within one wire unit, with the validity and format flags for exactly the parts supplied.",
 ["histories","inputs"],"every host clock value (any date, jumps, end of day, month and year) and position, in any order of the two calls",
 "No test prepares assistance data.",
 [PK],[("AidIniBuilder::set_position / set_time",PK)],[],["AidIniBuilder","device decoder"])
p("C24","The built-in storages are exact bounded byte queues",
 "A growable or fixed-size storage, driven through the storage interface by any sequence of appends, removals from the front, clearing, searching, indexing, slicing and emptiness tests, behaves as a queue of bytes bounded by its capacity: it holds exactly the bytes appended and not yet removed, in order; an append stores as much as fits and reports exactly how many bytes it did not; capacity left by removals can be used again in full; a search finds the first stored occurrence and never a leftover; reading a range beyond the stored length panics rather than showing leftovers, and leaves the storage as it was; the capacity of a fixed-size storage is the size of its region, and memory outside the region is never touched. The same holds for a user's storage that relies on the interface's provided search and emptiness test.",
 ["histories","configurations","inputs"],"every region size from 0 bytes and previous content, every sequence of operations (at most the stored number of bytes removed), several storages side by side",
 "Tests perform a few fixed sequences on one region size; leftovers, refusals and removals interact over histories.",
 [PA],[("FixedLinearBuffer",PA),("impl UnderlyingBuffer for Vec<u8>",PA),("UnderlyingBuffer::find / is_empty",PA)],[("FixedLinearBuffer.len","how much of the region is stored bytes",PA)],["UnderlyingBuffer calls"])
p("C25","What an application saves reads back as it was",
 "Positions, Earth-centred positions, velocities, UART modes and their parts, reset modes, interference-monitor settings and satellite states, obtained from received messages or made by the application and stored in serialised form (serde, as text, in a compact form or as a generic value tree), read back as the same values - the same commands are built from them - in any later run of the application; a record torn by a failing store or a power cut, or without one of its fields, is refused or reads back as what was meant, never as another value.",
 ["crash_points","histories","inputs"],"every value such a type can hold, every point at which the store fails or power is lost, every split of the writes",
 "No test deserialises anything; the two directions are written separately (derive macros, ubx_extend, manual implementations).",
 [PK,TY,DO],[("Serialize / Deserialize derives",PK),("#[ubx_extend] types",DO),("Position, Velocity",TY)],[("application's stored records","values kept across runs","application")],["Serialize::serialize","Deserialize::deserialize"])
p("C26","A message description that contradicts itself is refused when it is compiled",
 "The code generator refuses, with an error, any message description whose field sizes do not add up to the declared payload length, that has a field of open size before the last, that gives an attribute twice or leaves a required one out, or whose open payload length has no maximum; whatever it accepts gives a type that lays the fields out one after the other in the order written.",
 ["inputs"],"every token stream given to the macros",
 "Tests expand a few descriptions; the space of descriptions is unbounded.",
 ["ublox_derive/src/input.rs","ublox_derive/src/types.rs"],[("validation of packet sizes and attributes","ublox_derive/src/input.rs")],[],["ubx_packet_recv","ubx_packet_send","ubx_packet_recv_send"])
p("C27","Memory is the caller's, or bounded and given back",
 "A parser on a buffer of the caller's, every use of the packets and errors it delivers (accessors, lists, conversions, debug and serialised form) and every command in a form of fixed size ask the heap for nothing, so they work on when none is left; a growing parser takes at no moment more than four times the sum of the longest message (8184 bytes), its longest read and the most bytes it ever kept, plus one kilobyte, however long the stream; a configuration command made into a vector takes at most four times its frame plus 256 bytes; and everything taken is given back when the parser or vector is dropped.",
 ["histories","fault_sequences","configurations"],"every stream, damage, read pattern and session length; every buffer size; every command",
 "Tests do not look at memory; what is taken depends on the history of reads.",
 [PA,PK,UP,DO],[("FixedLinearBuffer, impl UnderlyingBuffer for Vec<u8>",PA),("DualBuffer::take / drop",PA),("accessors, iterators, Debug, Serialize",DO),("into_packet_vec",DO)],[buf],["global allocator"])
p("C28","Results are the same on every machine",
 "On a machine of another word size and byte order (32-bit, big-endian) the library yields, for the same received bytes, reads, buffers and commands, exactly the packets, field values, errors, kept bytes and frames that it yields on a 64-bit little-endian one, and on either it never does anything the language leaves undefined.",
 ["configurations","inputs","schedules"],"every machine the language supports; every stream, read schedule, fault sequence and command",
 "Tests run on the developer's machine only, while receivers are attached to microcontrollers.",
 [PA,PK,UP,DO],[("from_le_bytes / to_le_bytes in generated code",DO),("FixedLinearBuffer::drain (unsafe)",PA),("length arithmetic",PA)],[buf],["ParserIter::next","builders"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
