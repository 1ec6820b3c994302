#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays readable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","The checksum is MAVLink's X.25 CRC for every byte string, however it is fed",
  "For every byte string, the checksum hash returns the CRC-16/MCRF4XX of the bytes written since the last reset, low byte first, whatever the split into writes. Asking for the sum appends exactly two bytes, leaves the given prefix as it was and does not change the state; reset returns to the initial state; the reported sizes are 2 and 1.",
  ["inputs","histories"],"every (state, byte) pair of the 16-bit register, every short sequence of write/sum/reset calls",
  "The tests checksum two or three fixed frames; none calls the hash directly, and none reaches more than a few hundred of its 65536 states.",
  ["x25.go"],[("table-free X.25 step and little-endian sum","x25.go:Write,Sum,Reset")],["X25CRC.Write/Sum/Reset/Size/BlockSize"],
  [dict(name="value",meaning="16-bit CRC register",where="x25.go:X25CRC")])

p("C02","A packed frame carries its header and message to the receiver unchanged",
  "For every message of every dialect, every protocol version that can carry it, and every system id, component id and sequence number, a frame built from the message reports exactly those header values, the right start byte, message id and payload length, passes validation, and decodes to a message of the same type with the same field values. The header bytes are laid out as MAVLink 1 and MAVLink 2 define them (MAVLink 1: start, length, sequence, system, component, id).",
  ["inputs"],"all messages of the ten dialects x versions 1 and 2 x payload patterns per field byte x all 256 values of each header field",
  "No test packs a frame at all: the frame tests only parse two captured frames.",
  ["stream.go","dialect.go","frame.go","message.go","common","ardupilotmega","asluav","autoquad","icarous","matrixpilot","paparazzi","slugs","uAvionix","ualberta"],
  [("packFrame","stream.go:packFrame"),("Dialects.GetFrame / Validate / GetMessage","dialect.go"),("accessors","frame.go")],
  ["Dialects.GetFrame","Frame accessors","Dialects.Validate","Dialects.GetMessage"])

p("C03","Every message is encoded exactly as its MAVLink definition prescribes",
  "For every message of every dialect, the message id, CRC extra, minimum and maximum payload length, and the position, width, signedness and little-endian byte order of each field in the payload are those of the MAVLink definition, both when encoding and when decoding. Every listed id has a decoder that yields the message of that id, name and dialect, and no id outside the definition is known.",
  ["inputs"],"all messages of the ten dialects, all 2^24 message ids, every payload byte position x a value alphabet, pairs of positions across neighbouring fields",
  "The existing tests decode no message: of the 329 definitions they touch the metadata of two.",
  ["common","ardupilotmega","asluav","autoquad","icarous","matrixpilot","paparazzi","slugs","uAvionix","ualberta","message.go"],
  [("per-message Read/Write over encoding/binary","*/<message>.go"),("metadata and decoder tables","*/dialect.go")],["Message.Read","Message.Write","Dialect.GetMeta","Dialect.GetMessage"])

p("C04","MAVLink 2 trailing-zero truncation loses nothing and never over- or under-cuts",
  "The MAVLink 2 encoding of every message ends with a non-zero byte, or is exactly its first byte when the whole payload is zero; it is never empty and never longer than the message's maximum. Decoding a payload cut at any point gives the same message as decoding it extended with zeros to full length. MAVLink 1 payloads are never truncated.",
  ["inputs"],"every message x every position of the last non-zero byte (including none) x every cut length of the received payload",
  "One test parses one truncated frame; none encodes, and none covers the all-zero payload or cuts inside a field.",
  ["util","common","ardupilotmega","asluav","autoquad","icarous","matrixpilot","paparazzi","slugs","uAvionix","ualberta"],
  [("TruncateV2","util/util.go"),("zero-padded decode buffer","*/<message>.go:Read,getIOSlice")],["Message.Write(2)","Message.Read","Dialects.GetFrame"])

p("C05","Protocol-version rules hold for every message",
  "Encoding or decoding with any version other than 1 and 2 is refused with the unsupported-version error, and messages with ids above 255 are refused in MAVLink 1 frames in both directions with their specific errors, before any output is produced. A MAVLink 1 encoding has exactly the base fields (extension fields left out); extension fields survive MAVLink 2 and are reported as present only for messages that define extensions and arrived in a MAVLink 2 frame.",
  ["inputs"],"all messages x versions {-1,0,1,2,3,255} x extension fields zero/non-zero",
  "No test encodes a message or decodes one with extensions.",
  ["stream.go","message.go","common","ardupilotmega","asluav","autoquad","icarous","matrixpilot","paparazzi","slugs","uAvionix","ualberta"],
  [("version guards in Read/Write","*/<message>.go"),("packFrame version guard","stream.go:packFrame")],["Message.Write","Message.Read","Message.GetVersion","Dialects.GetFrame"])

p("C06","Validation accepts exactly the well-formed frames",
  "A complete frame validates if and only if some loaded dialect defines its message id, its payload length is within the limits (the minimum applies to MAVLink 1 only) and its checksum over header, payload and the message's CRC extra is right; otherwise the error names the first failing condition (unknown, too short, too long, bad checksum). In particular every wrong checksum is rejected, and so is every frame damaged, with its length and message id intact, by one or two flipped bits or by one burst of up to 16 bits within header and payload or within the checksum.",
  ["inputs"],"every message x every payload length 0..255 x both versions; all single- and double-bit flips and all bursts up to 16 bits in a set of frames; all 65536 checksum values",
  "Tests corrupt one checksum byte of two frames by adding one.",
  ["dialect.go","x25.go","frame.go"],[("Dialects.Validate","dialect.go:Validate")],["Dialects.Validate"])

p("C07","Frame accessors report the bytes the MAVLink layout puts there",
  "For every complete frame, each accessor returns exactly what the MAVLink 1 or 2 layout places there: length, flags, sequence, system, component, 8- or 24-bit id, payload, checksum, checksum input, and the 13 signature bytes exactly when the signed incompatibility flag is set. Making a frame from bytes picks the version by start byte, rejects empty, unknown-start and too-short-to-copy input with an error, and a requested copy is independent of the input and exactly as long as asked; rendering a frame as text never fails.",
  ["inputs"],"every value of each header byte, every payload length 0..255, signed and unsigned, all requested lengths around the input length",
  "Tests read five accessors on a single heartbeat frame; signed frames and the copy length limits are never exercised.",
  ["frame.go"],[("FrameV1/FrameV2 accessors","frame.go"),("FrameFromBytes","frame.go:FrameFromBytes")],["Frame methods","FrameFromBytes","FrameV2.GetSignature"])

p("C08","The stream reader delivers exactly the valid frames, in order, from any bytes",
  "Whatever bytes arrive, the reader delivers exactly the frames a left-to-right scan finds: at each start byte the complete candidate frame (signature included) is taken and skipped over if it validates, otherwise scanning resumes one byte further. Frames arrive whole, byte-for-byte, in order, none twice and none lost, except that a candidate still incomplete when the input ends yields nothing; no input makes the reader crash or spin.",
  ["inputs","histories"],"all sequences up to a depth over an alphabet of valid, damaged, nested, truncated, signed, maximal and junk segments",
  "Eight fixed streams, all of them of at most three segments; no signed or maximal frame, no nested candidate; the one large-frame test fails and is not in the suite.",
  ["stream.go","frame.go","dialect.go"],[("resynchronising scan over a sliding buffer","stream.go:readFrame,peekHeader")],["FrameStream.ReadContext","FrameStream.Read"],
  [dict(name="buffer/bufferIndex",meaning="bytes received and not yet consumed",where="stream.go:FrameStream")])

p("C09","Delivered frames do not depend on how the transport splits its reads",
  "For a given byte stream, the frames delivered are the same for every way the transport cuts it into reads: byte by byte, arbitrary pieces, many frames at once, reads that return nothing, and data returned together with end of file. This holds for any stream length and after any number of earlier frames.",
  ["fault_sequences","inputs"],"all splits into up to three or four reads, all uniform read sizes, empty reads at every position, streams beyond every internal buffer size",
  "Every test hands the whole stream to the reader in one read.",
  ["stream.go"],[("ReadAtLeast bookkeeping","stream.go:readFrame"),("buffered reader","stream.go:NewFrameStreamWithLogger")],["FrameStream.Read"],
  [dict(name="bufferIndex",meaning="fill level",where="stream.go:FrameStream")])

p("C10","A delivered frame never changes afterwards and never affects later frames",
  "Once the stream has delivered a frame, its bytes stay the same whatever the stream reads, delivers, logs or drops afterwards, including after it is closed. Writing into a delivered frame, or appending to its bytes, has no effect on any other frame, delivered before or after.",
  ["histories","inputs"],"all segment sequences up to a depth, every delivered frame compared again after each later event; consumer overwriting each frame it got",
  "Tests look at a frame once, right after receiving it.",
  ["stream.go","frame.go"],[("copying before delivery","stream.go:readFrame"),("FrameFromBytes makeCopy","frame.go")],["frames from FrameStream.Read"])

p("C11","With invalid frames requested, every candidate is delivered and none is hidden",
  "A stream asked to return invalid frames delivers, in order of their start byte, every complete candidate the scan meets, valid or not, each exactly as long as its header says; after an invalid one scanning resumes one byte further, after a valid one behind it. The valid frames among them are exactly those delivered without the option, and without the option no invalid frame is ever delivered.",
  ["inputs","histories"],"the segment sequences of C08 plus all short byte strings over a small alphabet of header-like bytes",
  "Three fixed streams, with only the length of each delivered frame looked at.",
  ["stream.go"],[("returnInvalidFrames branch","stream.go:readFrame")],["FrameStream.Read"],
  [dict(name="returnInvalidFrames",meaning="mode",where="stream.go:FrameStream")])

p("C12","Transport failure at any byte loses no completed frame and is reported",
  "If the transport fails or ends after any number of bytes, every frame completed by the bytes before the failure, including bytes returned together with it, is delivered, and nothing else; then the stream closes itself, the transport is closed, and the close error is the transport's error (end of file may be reported as unexpected end of file). Writing to a transport that fails likewise closes the stream with that error.",
  ["fault_sequences","inputs"],"failure after every byte of several streams x kind of failure x with or without data x read sizes; failure at each write",
  "Tests end every stream with a plain end of file and never look at the close error after reading.",
  ["stream.go"],[("error paths of readFrame, ReadContext and WriteContext","stream.go")],["FrameStream.Read","FrameStream.Closed","FrameStream.GetCloseErr","transport Close"])

p("C13","Frames sent are written whole, once and in order",
  "Each frame the stream accepts for writing is handed to the transport as one write of exactly its bytes, in the order accepted, never duplicated, merged, split or altered, until the stream closes; after a failed write nothing more is written. Closing the frame channel closes the stream, after everything accepted from it has been written.",
  ["schedules","histories","fault_sequences"],"all schedules of up to two producers, the writer and a closer; all frame kinds; failure at each write",
  "One test writes one frame and sleeps.",
  ["stream.go"],[("WriteContext loop","stream.go:WriteContext")],["transport Write calls"],[dict(name="inputFrames",meaning="frames to write",where="stream.go:FrameStream")])

p("C14","The frame log matches the traffic",
  "With a logger attached, each frame written is logged once, with its exact bytes, in write order, if and only if its write succeeded; each frame delivered to the reader was logged as read exactly once, with its exact bytes and in order, before it was delivered, and nothing else is logged except a last frame whose delivery was cut off by closing. A logger returning errors, or none at all, changes nothing in the traffic.",
  ["histories","schedules","fault_sequences"],"segment sequences, write faults at each position, closing at every point, failing loggers, both invalid-frame modes",
  "Two tests log a single frame each.",
  ["stream.go"],[("LogRead / LogWritten calls","stream.go:ReadContext,WriteContext")],["FrameLogger calls"])

p("C15","Closing is safe at any moment, from anywhere, any number of times",
  "In every interleaving of reading, writing, consuming, cancelling and closing (by the user, several users, a cancelled context, a closed frame channel or a transport failure), nothing panics or deadlocks and closing returns. Afterwards the frame channel and the closed-notification channel are both closed, and the transport was closed exactly once.",
  ["schedules","fault_sequences"],"all interleavings up to a preemption bound of reader, writer, producer, consumer and one or two closers over scripted transports",
  "No test closes a stream while anything else is going on; the race needs a frame in flight at the moment of closing.",
  ["stream.go"],[("closeOnce, the stream's locks and its channels","stream.go:close,ReadContext,WriteContext")],["FrameStream.Close","FrameStream.Read","FrameStream.Closed","transport Close"],
  [dict(name="closed/outputFrames",meaning="lifecycle channels",where="stream.go:FrameStream")])

p("C16","The close error is the first cause, fixed, and visible once closed is signalled",
  "Before the stream is closed the close error is nil. Whoever sees the stream closed, through either channel, reads a non-nil close error naming something that really happened (user close, the context's error, closed frame channel, or the transport's error) before the stream closed, and it never changes afterwards; a cause that strikes after the stream was seen closed is never reported.",
  ["schedules","fault_sequences"],"all interleavings up to a preemption bound of every pair of competing causes with observers on both channels",
  "One test reads the close error once, expecting nil.",
  ["stream.go"],[("closeErr set once under the lock before signalling","stream.go:close,GetCloseErr")],["FrameStream.GetCloseErr","FrameStream.Closed","FrameStream.Read"],
  [dict(name="closeErr",meaning="first cause",where="stream.go:FrameStream")])

p("C17","Once a stream is closed or cancelled, its loops end without further traffic",
  "After the stream is closed for any reason, or the context given to a running loop is cancelled, both the read loop and the write loop return, without needing another frame, another byte or a consumer, provided the transport's blocked calls return once it is closed. No goroutine stays behind.",
  ["schedules"],"all interleavings up to a preemption bound, with idle, full, failing and blocked transports, with the consumer gone and no producer",
  "Tests abandon their goroutines and never wait for them.",
  ["stream.go"],[("select on the closed channel and the context in both loops","stream.go:ReadContext,WriteContext,deliver")],["return of ReadContext and WriteContext"])

p("C18","Stream state is free of data races in every permitted concurrent use",
  "Reading, writing, closing, cancelling and querying a stream from different goroutines, and creating streams independently, never access the same memory without synchronisation when at least one access is a write. Different streams share no mutable state.",
  ["schedules"],"all interleavings up to a preemption bound, with happens-before tracking of every shared field and package variable on each",
  "The suite does not run under a race detector, and a detector only sees the schedules that occur.",
  ["stream.go","dialect.go","frame.go"],[("locks, once and channels ordering field accesses","stream.go")],["shared fields of the stream, package-level variables"],None,"instrumentation is added on the fly to a build overlay; no hook in /repo")

p("C19","Dialects are consulted in order and consistently",
  "For every list of dialects, including the empty list, repeated and overlapping dialects, decoding, packing and validation all use the first listed dialect that defines the message id. An id none of them defines is reported as unknown by all three; decoding then still returns a placeholder message; an error other than unknown from a dialect is passed on and ends the search.",
  ["configurations","inputs"],"all ordered lists of up to four scripted dialects (unknown / knows / error) and all ordered pairs of the real ones over every id any of them defines",
  "Tests use one fixed list of two dialects that do not overlap in anything they look up.",
  ["dialect.go"],[("Dialects.GetMessage / GetFrame / Validate","dialect.go")],["Dialects.GetMessage","Dialects.GetFrame","Dialects.Validate"])

p("C20","Messages of no loaded dialect are kept verbatim",
  "Decoding a frame whose id no dialect defines yields, beside the unknown-message error, a placeholder with that id, the frame's version and an exact copy of the payload, for every id, length and version. The copy is independent of the frame, writing the placeholder gives back those bytes, and rendering it never fails.",
  ["inputs"],"ids around every boundary of the 24-bit space x payload lengths 0..255 x versions x byte patterns",
  "No test decodes an unknown message.",
  ["message.go","dialect.go"],[("UnknownMessage","message.go"),("fallback in GetMessage","dialect.go")],["Dialects.GetMessage","UnknownMessage fields and Write"])

p("C21","String fields hold exactly what was last set",
  "Setting a text field of any message stores the string up to the field's size, clears the rest of the field, touches no other field, and reports a too-long value exactly when it was cut; getting it returns the text up to the first zero byte or the whole field. So after any sequence of sets the getter returns the last string set, cut to the field's size and at an embedded zero, also after an encode/decode round trip.",
  ["inputs","histories"],"every string setter of every message x all sequences of up to three sets over lengths {0,1,2,n-1,n,n+1,n+5,2n} and embedded zeros",
  "No test sets or gets a string field.",
  ["common","ardupilotmega","asluav","autoquad","icarous","matrixpilot","slugs","uAvionix","util"],[("SetX/GetX","*/<message>.go"),("CStrLen","util/util.go")],["SetX / GetX methods"])

p("C22","Coding is pure: inputs stay intact, results are independent and repeatable",
  "Validating, decoding, packing, encoding and rendering change neither the frame, nor the bytes around it in a larger buffer, nor the message given; doing any of them again gives the same result, whatever was processed in between. Decoding into a message used before gives the same as decoding into a new one, and decoded messages, packed frames and encodings of dialect-defined messages never share memory with each other or with their inputs.",
  ["histories","inputs"],"every message x all call sequences up to length three over {encode v1, encode v2, pack, validate, decode A, decode B, render} with all live results re-compared after each call",
  "Each test performs each call once on a fresh value.",
  ["dialect.go","frame.go","stream.go","message.go","x25.go","util","common","ardupilotmega"],[("separate checksum writes instead of append","dialect.go:Validate"),("fresh buffers in Read/Write","*/<message>.go")],["Message, Dialects and Frame methods"])

p("C23","Independent coding operations may run concurrently",
  "Packing, validating and decoding different messages from several goroutines at once, with shared dialects, gives each the result it would get alone, in every interleaving, without data races. Decoding and validating the same frame concurrently is also safe.",
  ["schedules"],"for every message, all interleavings of two coding goroutines at statement granularity up to a preemption bound",
  "No test codes concurrently, and a shared scratch buffer shows up only under a particular interleaving.",
  ["dialect.go","frame.go","stream.go","x25.go","util","common","ardupilotmega"],[("no package-level mutable state","*")],["results of concurrent calls"],None,"instrumentation is added on the fly to a build overlay; no hook in /repo")

p("C24","The UDP transport keeps datagrams whole and answers the first peer",
  "Before any datagram has been read, writing fails with the no-address error and sends nothing. From then on each write sends exactly its bytes as one datagram to the sender of the first datagram read, whoever else sends later, and each read returns exactly one datagram, in arrival order. After closing, reads and writes fail, a blocked read returns, and the port is free again.",
  ["histories"],"all sequences up to a depth of {peer A sends, peer B sends, read, write, close} over real loopback sockets, datagram sizes including empty and large",
  "The tests only open the socket; nothing is ever read or written.",
  ["util"],[("UDPReadWriteCloser","util/udpreadwritecloser.go")],["UDPReadWriteCloser.Read/Write/Close, datagrams at the peers"],[dict(name="lastAddr",meaning="peer written to",where="util:UDPReadWriteCloser")])

p("C25","The UDP transport is safe for concurrent reads, writes and close",
  "In every interleaving of concurrent reads, writes and a close, the peer is chosen once and all writes that are sent go to that one peer, whole; a write either fails without sending or is sent once. There are no data races, panics or deadlocks.",
  ["schedules"],"all interleavings up to a preemption bound of two readers with datagrams of two peers, two writers and a closer",
  "Nothing reads, writes or closes concurrently in the tests.",
  ["util"],[("mutex around the peer address","util:UDPReadWriteCloser.Read,Write")],["datagrams at the peers, results of calls"],None,"instrumentation is added on the fly to a build overlay; no hook in /repo")

p("C26","Every message renders as text completely and without error",
  "Rendering any decoded message of any dialect, for any field values, gives a text that names the dialect and message and lists every base field, in order, under its own name with its own value, and the extension fields exactly when they are present; it never contains a formatting error and never fails.",
  ["inputs"],"all messages x extension present/absent x field values distinct per field, extremes, NaN and infinities, and bytes that look like formatting verbs",
  "No test renders a message.",
  ["message.go","common","ardupilotmega","asluav","autoquad","icarous","matrixpilot","paparazzi","slugs","uAvionix","ualberta"],[("String","*/<message>.go")],["String()"])

p("C27","Messages sent through one stream arrive through another, in order",
  "Messages packed and sent on one stream, carried by a reliable transport that may cut the bytes anywhere, are received from another stream and decode to the same messages in the same order, with both protocol versions mixed, in every interleaving of the four loops. Frames already completely received when the sender goes away are still delivered.",
  ["schedules","inputs"],"all interleavings up to a preemption bound of sender, writer, reader and receiver over a byte pipe with every small read size, for every ordered pair drawn from a set of messages",
  "No test connects two streams.",
  ["stream.go","dialect.go","frame.go"],[("WriteContext to ReadContext","stream.go")],["messages received"])

p("C28","The variable-length extension message carries exactly the payload given",
  "For every payload of 0 to 249 bytes, setting the payload, packing in either version, validating and decoding gives back that payload (MAVLink 2 may drop trailing zero bytes), with the length reported accordingly; a longer payload is cut to 249 bytes and reported as too long. Frames of any received length decode without failing, and the payload accessor returns the bytes after the fixed fields.",
  ["inputs","histories"],"all payload lengths 0..260 x byte patterns x versions x all received lengths 0..254, and reuse of one message across lengths",
  "No test touches this message, the only one with its own encoder.",
  ["common/v2_extension.go","common/dialect.go"],[("V2Extension","common/v2_extension.go")],["V2Extension.SetPayloadSlice/GetPayload/Read/Write"])

p("C29","A stream over the UDP transport receives every frame and answers the first peer",
  "A stream opened on the UDP transport delivers every valid frame of every datagram of up to 1472 bytes, in arrival order, whoever sent it, however many frames a datagram holds. Each frame sent goes out whole as one datagram of its own to the sender of the first datagram received, in order; only a frame sent before any datagram arrived closes the stream, with the no-address error. Closing or cancelling at any moment ends the loops and frees the port.",
  ["schedules","histories"],"all sequences of datagrams and sends to a depth, datagrams filled with frames of every length, all interleavings of the stream's loops, the peers, producer, consumer and closers to a preemption bound, on loopback sockets",
  "No test connects a stream with the UDP transport or receives a datagram.",
  ["stream.go","util/udpreadwritecloser.go"],[("ReadContext/WriteContext over UDPReadWriteCloser","stream.go"),("peer choice","util/udpreadwritecloser.go:Read,Write")],["frames delivered","datagrams received by the peers","GetCloseErr"])

p("C30","Frames passed on to other streams stay unchanged; streams do not interfere",
  "When frames received from streams are sent on to other streams, as a router does, each of these writes exactly the frames it was given: same bytes, in that order, whatever their version, flags, signature or message, invalid ones included if requested, while further frames keep arriving. A stream that ends, fails, blocks or is closed does not disturb the others: they stay open, keep receiving and sending, and their close error stays nil.",
  ["schedules","histories"],"all sequences of segments to a depth passed on to two streams, and all interleavings to a preemption bound of two or three connected streams of which one ends in different ways",
  "No test uses two streams or writes a received frame.",
  ["stream.go","frame.go"],[("frames copied out of the read buffer","stream.go:readFrame"),("write loop","stream.go:WriteContext")],["bytes given to the transports","frames delivered","GetCloseErr"])

p("C31","Each kind of invalid frame is reported once, and nothing else is printed",
  "A stream prints one report for each kind of invalid frame it meets, a kind being version, message id, system id and component id: when it meets the first of that kind, naming these four, and never again for the same kind however many follow. Valid frames, junk and other streams cause no report and suppress none.",
  ["inputs","histories"],"all sequences to a depth of frames that agree or differ in version, id, system, component, sequence and payload, all senders and all id bytes, long runs, pairs of streams",
  "No test looks at what is printed.",
  ["stream.go"],[("invalidLogged","stream.go:readFrame")],["what the process prints"])

p("C32","Frames and placeholders render as text with their own values",
  "The text of a frame shows its version, payload length, system id, component id, message id and checksum (and for MAVLink 2 whether it is signed, both flag bytes, and the signature exactly when signed), each under its label with the value the frame holds; the text of a placeholder shows its id, version and payload. Rendering changes nothing, never fails and gives the same text again, whatever was rendered before.",
  ["inputs"],"every payload length, every value of every header byte, every checksum, every signature byte, triples of frames rendered in turn",
  "No test renders a frame.",
  ["frame.go","message.go"],[("String","frame.go"),("UnknownMessage.String","message.go")],["FrameV1.String","FrameV2.String","UnknownMessage.String"])

p("C33","The two directions of a stream do not wait for each other",
  "While a transport read waits for bytes, half a frame has arrived, or nobody takes the frames received, frames sent are still accepted and written; while a transport write blocks, the channel of frames to send is full, or nothing is sent, frames are still received. So every exchange completes in which the peer, the sender or the taker waits for a frame of the other direction, replies sent by the goroutine that takes the frames included. Each frame goes to exactly one of several takers; asking the stream for its channels or close error never blocks.",
  ["schedules","histories"],"all patterns of which frame waits for which of the other direction, up to 3 or 4 frames each way; all interleavings to a preemption bound for 2 frames each way, for replies, and for up to 3 takers and senders",
  "No test reads and writes on one stream with either side waiting for the other.",
  ["stream.go"],[("read loop and delivery","stream.go:ReadContext,deliver"),("write loop","stream.go:WriteContext"),("close error","stream.go:GetCloseErr")],["frames delivered","bytes given to the transport","return of GetCloseErr, Closed, Read and Write"])

p("C34","A stream holds back: it never reads, accepts or spawns ahead without bound",
  "However much arrives, a stream reads at most 256 KiB beyond the frame to be taken next, and drops none of it; while a write blocks it accepts at most 16 frames beyond the channel's capacity. The number of goroutines of a stream does not grow with the frames it has handled. Without a running read loop nothing is read or delivered, and without a running write loop nothing is written.",
  ["histories","schedules"],"endless repetitions of all sequences of segments to a depth with a consumer that stops, long exchanges counting goroutines, blocking writes x capacities x senders, and streams with one or no loop in all interleavings to a preemption bound",
  "No test lets a consumer or a transport stop and looks at what the stream still takes in.",
  ["stream.go"],[("read loop and delivery","stream.go:ReadContext,deliver"),("write loop","stream.go:WriteContext"),("NewFrameStream","stream.go:NewFrameStreamWithLogger")],["bytes asked of the transport","frames accepted","live goroutines"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
