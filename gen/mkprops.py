#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from one table (kept in git so the file stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Chunk header serialise/parse round trip",
  "Serialising any well-formed chunk header and parsing the bytes back yields a header equal in every field, and the parser consumes exactly the bytes the serialiser produced, whatever follows them. Well-formed means: header format 0-3 (the same in both header parts), chunk stream ID 2-65599, 24-bit timestamp and length, an extended timestamp present exactly when a format 0-2 timestamp is 0xFFFFFF, and fields the format does not carry left at zero.",
  ["inputs"], "all formats x all chunk stream IDs x all field values x all following bytes",
  "The tests parse and write three basic headers and one message header per format; the space is 4 formats x 65598 IDs x 2^24 timestamps x 2^24 lengths x 2^32 stream IDs.",
  ["chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/header.go", "spec/binary.go", "spec/bytes.go"],
  [("paired Read/Write of each header part", "chunk/header.go Header.Read, Header.Write"), ("ID size classes", "chunk/basic_header.go")],
  observe=["bytes written to the io.Writer", "fields of the parsed header", "unread bytes left in the io.Reader"])

prop("C02", "Chunk header wire layout",
  "A serialised chunk header is exactly: format in the top two bits and the chunk stream ID in 1, 2 (ID-64 in one byte) or 3 bytes (marker 63, ID-64 as 16-bit big-endian) by ID range 2-62, 64-319, 320-65599; then 11, 7, 3 or 0 bytes of timestamp (24-bit BE), length (24-bit BE), type and stream ID (32-bit LE); then a 32-bit BE extended timestamp exactly when the 24-bit timestamp is 0xFFFFFF. Parsing decodes every byte string according to the same layout, including byte strings the serialiser never emits, and an ID marker in 1-62 means that ID.",
  ["inputs"], "all headers (writing) and all byte strings (parsing)",
  "Tests compare a handful of literal buffers; a layout slip for one ID range, one format or one byte position escapes them.",
  ["chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/header.go", "spec/binary.go"],
  [("bit packing of the basic header", "chunk/basic_header.go"), ("fixed-width fields", "chunk/message_header.go")],
  observe=["bytes written", "fields parsed"])

prop("C03", "Writer splits messages into correct chunks",
  "Writing a message with payload length L and a chunk size n >= 1 sends the destination exactly: the message's header, then the payload bytes in order, with one format-3 basic header of the same chunk stream (followed by the extended timestamp again if the message has one) before every n-byte boundary strictly inside the payload, and nothing else. The whole message is handed to the destination in at most one write, so messages written by different goroutines never interleave, writing terminates for every L and n >= 1, and a destination error is returned to the caller.",
  ["inputs", "fault_sequences"], "all payloads, all chunk sizes >= 1, all chunk stream IDs, all destination failures",
  "Two tests write 8 bytes with sizes 8 and 4 on stream 18; larger IDs, sizes that do not divide the payload, empty payloads and failing writers are never tried.",
  ["chunk/default_writer.go", "chunk/header.go", "spec/math.go"],
  [("split loop over a staging buffer, one copy to the destination", "chunk/default_writer.go DefaultWriter.Write")],
  observe=["bytes and write calls seen by the destination", "returned error"])

prop("C04", "Written messages are read back unchanged",
  "For every message with a format-0 header and every chunk size n >= 1, a reader using the same chunk size that is fed the bytes the writer produced delivers exactly one message with the same header and the same payload bytes and leaves the following bytes unread. This holds for every chunk stream ID, including the ones whose basic header takes 2 or 3 bytes, and for timestamps that need the extended field.",
  ["inputs"], "all messages x all chunk sizes x all following bytes",
  "Tests round-trip 8-byte messages on streams 18 and 19 only; continuation headers of wide IDs and extended timestamps are never exercised.",
  ["chunk/default_writer.go", "chunk/default_reader.go", "chunk/builder.go", "chunk/header.go"],
  [("writer split loop", "chunk/default_writer.go"), ("reader reassembly loop", "chunk/default_reader.go DefaultReader.Recv")],
  observe=["messages on the reader's output channel", "errors on its error channel"])

prop("C05", "Interleaved messages are reassembled in isolation",
  "Whatever way chunks of different chunk streams interleave on the wire, each chunk's payload is appended, in arrival order, only to the message in progress on its own chunk stream; messages in progress on other chunk streams keep exactly the bytes they had. A message is delivered exactly once, when and only when as many bytes as its header announced have arrived, under the header that started it, and the next chunk on that stream starts a new message.",
  ["inputs", "histories"], "all sequences of chunks over all chunk streams",
  "One test interleaves two streams with two chunks each; the property is about every history of arrivals.",
  ["chunk/default_reader.go", "chunk/builder.go"],
  [("per-stream builders keyed by chunk stream ID", "chunk/default_reader.go"), ("byte accounting", "chunk/builder.go Append, BytesLeft")],
  state=[("builders", "message in progress per chunk stream", "chunk/default_reader.go"), ("left", "bytes still missing", "chunk/builder.go")],
  observe=["messages on the reader's output channel"])

prop("C06", "Compressed headers are completed correctly",
  "After normalisation a header carries the full information of the RTMP header-compression rules: a format-0 header is unchanged; a format-1 header takes its message stream ID, and a format-2 header its message stream ID, length and type, from the previous header on the same chunk stream; a format-3 header takes its whole message header from the previous header on the same chunk stream. Fields present on the wire are never altered, the two format fields always agree, headers seen earlier are never modified, and chunks on other chunk streams have no influence.",
  ["inputs", "histories"], "all sequences of headers over all chunk streams",
  "Three tests normalise one or two headers on one stream; interleaved histories and the type field are not covered.",
  ["chunk/default_normalizer.go", "chunk/normalizer.go"],
  [("last header per chunk stream", "chunk/default_normalizer.go Normalize, StoreHeader, fillPartialHeader, fillEmptyHeader")],
  state=[("headers", "last header per chunk stream", "chunk/default_normalizer.go")],
  observe=["fields of the normalised header"])

prop("C07", "Set Chunk Size is applied and consumed",
  "A complete, well-formed Set Chunk Size message (type 1, at least four payload bytes, non-zero size) sets the reader's chunk size to the 32-bit big-endian number it carries before any later chunk is read, and is not delivered to consumers. Every other message is delivered and leaves the chunk size as it was, and a malformed Set Chunk Size message changes nothing.",
  ["inputs", "histories"], "all messages of all types and payloads, at any point of any history",
  "No test sends a Set Chunk Size message through the reader.",
  ["chunk/default_reader.go"],
  [("interception of type 1 messages", "chunk/default_reader.go updateChunkSize")],
  state=[("readSize", "current maximum chunk payload", "chunk/default_reader.go")],
  observe=["ReadSize()", "messages on the reader's output channel"])

prop("C08", "No peer input can crash the process",
  "No sequence of bytes received from a peer, and no failure of the transport, makes the handshake, the chunk reader, the chunk demultiplexer, or the control-message, media-frame or gate code panic. Malformed input is either reported as an error or ignored.",
  ["inputs", "fault_sequences"], "all byte strings and all read failures, at every decoding entry point",
  "A panic needs one specific malformed message (for instance a Set Chunk Size of three bytes) at one point; tests only feed well-formed input.",
  ["chunk/default_reader.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/builder.go", "spec/binary.go", "control/default_parser.go", "control/control_event.go", "control/stream.go", "handshake/packet_ack.go", "cmd/data/data.go", "cmd/gate.go"],
  [("length checks before indexing", "chunk, control, handshake, spec, cmd/data")],
  observe=["panics"])

prop("C09", "Truncated or failing input is an error, never data",
  "When the transport fails or ends before a header, a chunk payload, a control message body or a handshake packet is complete, the decoding step returns or reports a non-nil error and delivers no message built from the incomplete bytes. When all bytes are there no error is reported, even if the transport fails right after them.",
  ["inputs", "fault_sequences"], "every truncation point of every input and every transport error",
  "Tests use complete buffers plus a few empty ones; truncation in the middle of a multi-byte field is a different code path for each field.",
  ["spec/bytes.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/builder.go", "chunk/default_reader.go", "control/control_set_peer_bandwidth.go", "control/control_event.go", "handshake/packet_ack.go"],
  [("errors checked after every read", "all Read methods")],
  observe=["returned errors", "error channels", "message channels"])

prop("C10", "Integer codecs are exact and leave memory alone",
  "The fixed-width integer helpers write exactly the big-endian (or little-endian) bytes of the number and decode any slice of at most that width as the same number, so encoding then decoding is the identity. Decoding never modifies the slice it is given or any memory behind it.",
  ["inputs"], "all numbers, all slices shorter than or equal to the width, all slice capacities",
  "Only indirect tests with full-width slices exist; short slices with spare capacity behave differently.",
  ["spec/binary.go"],
  [("padding to full width", "spec/binary.go pad, padl"), ("encoding/binary", "spec/binary.go")],
  observe=["decoded value", "bytes written", "caller's backing array"])

prop("C11", "Chunk stream registry is consistent and atomic",
  "Asking for one chunk stream ID always returns the same stream object for the same ID and never disturbs another ID's stream. Asking for several IDs at once either returns a merged stream with a new member stream for each ID, or, if any of them exists already (or no ID is given), returns an error and changes nothing.",
  ["inputs", "histories"], "all ID lists against all registry states",
  "Tests try single IDs and one list on an empty or one-element registry.",
  ["chunk/parser.go", "chunk/stream.go"],
  [("existence check before creation, under one lock", "chunk/parser.go Parser.Stream")],
  state=[("streams", "chunk stream per ID", "chunk/parser.go")],
  observe=["returned stream and error", "registry contents"])

prop("C12", "Chunks are routed to their own stream exactly once",
  "Every message the reader delivers is handed, unmodified and exactly once, to the stream registered for its chunk stream ID and to no other, in the order of delivery. Every reader error is forwarded once to the error channel, and on close the reader is closed and every registered stream and the error channel are closed exactly once.",
  ["histories"], "all sequences of messages, errors and close requests",
  "Tests push one error or one chunk through; routing of arbitrary histories is not covered.",
  ["chunk/parser.go"],
  [("demultiplexing loop", "chunk/parser.go Parser.Recv")],
  observe=["values sent on each stream's channel", "channel closes"])

prop("C13", "Merged streams forward every chunk",
  "A merged stream starts exactly one forwarder per member stream, each forwarder passes on every chunk it receives exactly once, unmodified and in order, and signals completion exactly once when its member closes. The merged output is closed only after all forwarders have completed.",
  ["histories"], "all member lists and all sequences of chunks per member",
  "One test forwards two chunks from two members.",
  ["chunk/multi_stream.go"],
  [("fan-in goroutines and wait group", "chunk/multi_stream.go Append, AwaitClose")],
  observe=["values on the merged channel"])

prop("C14", "Shared state is only touched under its lock",
  "The state shared between goroutines (reader chunk size and partial messages, writer chunk size, normaliser memory, message accumulators, stream registry) is only read or written while the mutex documented to guard it is held. No operation acquires a mutex it already holds, and every operation releases what it acquired on every path.",
  ["schedules", "inputs"], "every access on every path of every operation, hence every schedule",
  "A data race or a lock leak needs a particular schedule or path; the tests run the objects from one goroutine without the race detector.",
  ["chunk/builder.go", "chunk/default_reader.go", "chunk/default_writer.go", "chunk/default_normalizer.go", "chunk/parser.go"],
  [("one mutex per guarded field", "chunk/builder.go pmu, lmu; default_reader.go bmu, rmu; default_writer.go wmu; default_normalizer.go lmu, hmu; parser.go smu")],
  observe=["field accesses while the lock is not held"])

prop("C15", "Decoding does not depend on transport fragmentation",
  "The result of decoding depends only on the bytes the transport carries, not on how they are split over individual read calls: reads that return fewer bytes than asked, no bytes without an error, or the last bytes together with an error, all lead to the same decoded values, the same unread rest and the same success or failure.",
  ["inputs", "fault_sequences"], "all byte strings x all legal splittings into read results",
  "The tests read from in-memory buffers, which never return short, empty or data-with-error reads.",
  ["spec/bytes.go", "handshake/version_sequence.go", "handshake/packet_ack.go", "chunk/builder.go"],
  [("full-length reads", "spec/bytes.go, chunk/builder.go, handshake")],
  observe=["decoded values and errors for one byte string under different splittings"])

prop("H01", "Handshake replies are byte-exact",
  "A handshake with a peer that sends a valid version byte and a 1536-byte challenge answers with exactly 1 + 1536 + 1536 bytes: the version 3, the server's own challenge packet, and an acknowledgement carrying the peer's first time field and all 1528 of the peer's challenge bytes in order. On success it has consumed exactly 1 + 1536 + 1536 bytes and not one byte of what follows.",
  ["inputs"], "all peer byte strings, all server challenges",
  "Tests run individual packets with random payloads; the whole exchange and the unread rest are never checked.",
  ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
  [("sequence of steps", "handshake/handshaker.go Handshake"), ("packet codec", "handshake/packet_ack.go")],
  observe=["bytes written to and left unread on the connection"])

prop("H02", "Handshake accepts exactly the right peers",
  "The handshake succeeds if and only if the peer sent version 3, a complete challenge and an acknowledgement whose 1528 challenge bytes all equal the server's challenge, and all writes succeeded. A wrong version is rejected before anything is written, and any mismatch, truncation or transport error makes the handshake return a non-nil error.",
  ["inputs", "fault_sequences"], "all peer byte strings, all truncations and write failures",
  "Tests cover one matching and one random mismatching acknowledgement; a comparison that ignores some of the 1528 bytes would pass.",
  ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/server_ack_sequence.go"],
  [("version check", "handshake/version_sequence.go Read"), ("challenge comparison", "handshake/server_ack_sequence.go Read")],
  observe=["returned error", "bytes written"])

prop("H03", "Handshake driver runs steps in order and stops on error",
  "For any chain of handshake steps the driver reads, then writes, then moves to the next step, for each step exactly once and in order, until the chain ends, in which case it reports success. The first failing read or write stops it immediately and its error is returned unchanged; it starts with the caller's initial step if one is given and with the version exchange otherwise.",
  ["inputs", "histories"], "all step chains and all failure points",
  "Tests use chains of one or two mock steps.",
  ["handshake/handshaker.go", "handshake/sequence.go"],
  [("loop over steps", "handshake/handshaker.go Handshake, With")],
  observe=["order of calls on the steps", "returned error"])

prop("K01", "Control messages round trip",
  "Encoding any control message (set chunk size up to 0xFFFFFF, abort, acknowledgement, user event with any body, window acknowledgement size, set peer bandwidth with any limit type) and decoding the bytes yields an equal message. Encodings are exactly the RTMP ones: 32-bit big-endian numbers, one limit-type byte, a 16-bit big-endian event type followed by the body, and chunk sizes are capped at 0xFFFFFF.",
  ["inputs"], "all field values and all event bodies",
  "Tests only decode one random value per type; the encoders are not tested except for one event.",
  ["control/control_set_chunk_size.go", "control/control_abort_message.go", "control/control_acknowledgement.go", "control/control_event.go", "control/control_window_ack_size.go", "control/control_set_peer_bandwidth.go"],
  [("paired Read/Write", "control/control_*.go")],
  observe=["bytes written", "fields decoded"])

prop("K02", "Control messages are framed as RTMP requires",
  "Turning a control message into a chunk yields a format-0 header on chunk stream 2 and message stream 0 with timestamp 0, the message's own type ID (1, 2, 3, 4, 5 or 6), a length equal to the payload length, and a payload equal to the message's encoding. A message that cannot be encoded yields an error and no chunk.",
  ["inputs"], "all control messages",
  "One test frames one acknowledgement.",
  ["control/default_chunker.go", "control/control.go"],
  [("header construction", "control/default_chunker.go Chunk")],
  observe=["returned chunk"])

prop("K03", "Control chunks are decoded by type",
  "Decoding a control chunk yields a fresh message of exactly the kind the chunk's type ID names (1 set chunk size, 2 abort, 3 acknowledgement, 4 event, 5 window acknowledgement size, 6 set peer bandwidth) with the fields its payload encodes, and framing followed by decoding is the identity. Every other type ID, and every payload too short for its type, yields an error and no message.",
  ["inputs"], "all 256 type IDs x all payloads",
  "Tests decode type 3 and reject type 30.",
  ["control/default_parser.go", "control/control.go"],
  [("type registry", "control/default_parser.go NewParser, Parse, TypeFor")],
  observe=["returned message and error"])

prop("K04", "The control stream handles each event exactly once",
  "Each chunk arriving on the control stream produces exactly one outcome: its decoded message on the incoming channel, or its decoding error on the error channel. Each message handed in for sending is framed and written exactly once, any failure producing exactly one error; after close nothing more is sent and all channels are closed, and a chunk source that has been closed produces neither messages nor a crash.",
  ["histories"], "all sequences of arrivals, sends, failures and close",
  "Tests push a single event of each kind.",
  ["control/stream.go"],
  [("event loop", "control/stream.go Recv")],
  observe=["values on In/Errs", "chunks written"])

prop("G01", "Gates classify every chunk as documented",
  "A chunk is for the net connection exactly if it is on chunk stream 3, or on chunk stream 8 with message stream 0; for the net stream exactly if it has type 0x14 and is on chunk stream 4, or on chunk stream 8 with message stream 1; for the data stream exactly if it is on chunk stream 4 with type 8, 9 or 0x12. No chunk is for two of them; a conjunction of gates is open iff it is non-empty and all members are open, and a disjunction iff some member is open.",
  ["inputs"], "all chunks, all gate combinations",
  "Tests check elementary gates on one or two values and never the three predefined gates.",
  ["cmd/gate.go"],
  [("gate tree", "cmd/gate.go NetConnGate, NetStreamGate, DataStreamGate, UnionGate.Open, AnyGate.Open")],
  observe=["result of Open"])

prop("G02", "The command dispatcher delivers to open gates only",
  "Each chunk received is sent, unmodified, exactly once to the channel of every gate that is open for it and to no other channel. A close request ends the dispatch loop, and a chunk source that has been closed does not crash it.",
  ["histories"], "all sequences of chunks and close requests, all gate tables",
  "One test dispatches one chunk with two mock gates and never closes.",
  ["cmd/manager.go"],
  [("dispatch loop", "cmd/manager.go Dispatch")],
  observe=["values on the gate channels"])

prop("D01", "Media frames pass through unchanged",
  "Reading an audio or video frame from a chunk and writing it back yields a chunk with the same header and the same payload bytes; its control byte is the first payload byte and its payload the rest. An empty payload is an error, the frame kind is chosen by the chunk's type ID (8 audio, 9 video, 0x12 data) and any other type ID is an error.",
  ["inputs"], "all chunks",
  "Tests use a few literal frames.",
  ["cmd/data/data.go", "cmd/data/audio.go", "cmd/data/video.go", "cmd/data/default_parser.go"],
  [("verbatim storage", "cmd/data/data.go Read, Marshal"), ("type registry", "cmd/data/default_parser.go")],
  observe=["returned frame, chunk and error"])

prop("D02", "Media control bytes are decoded per the FLV layout",
  "The codec, sound size and channel type of an audio frame and the codec and frame type of a video frame are the FLV bit fields of its control byte: audio codec bits 7-4, size bit 1 (8 or 16 bits), channels bit 0; video frame type bits 7-4, codec bits 3-0.",
  ["inputs"], "all 256 control bytes",
  "Tests enumerate the defined audio codecs with the other bits zero.",
  ["cmd/data/audio.go", "cmd/data/video.go"],
  [("bit masks", "cmd/data/audio.go, cmd/data/video.go")],
  observe=["returned attribute values"])

prop("N01", "Command and data streams handle each event exactly once",
  "On the net connection, net stream and data stream, each incoming chunk produces exactly one outcome (one decoded value on the outgoing channel, or one error), each value handed in for sending is marshalled and written exactly once with any failure reported exactly once, and after a close request no further event is handled. A chunk source that has been closed produces neither values nor a crash.",
  ["histories"], "all sequences of arrivals, sends, failures and close",
  "Tests push a single event of each kind.",
  ["cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"],
  [("event loops", "cmd/conn/net_conn.go Listen, cmd/stream/net_stream.go Listen, cmd/data/stream.go Recv")],
  observe=["values on the channels", "chunks written"])

prop("S01", "Outgoing command chunks are framed right and independent",
  "A status update becomes a chunk on chunk stream 5, message stream 1, type 0x14, whose payload is the onStatus command header followed by the encoded status and whose length field is the payload length; a connection response becomes a type 0x14 chunk on chunk stream 3 whose payload is the encoded response. Building a chunk never changes the payload of one built earlier.",
  ["inputs", "histories"], "all statuses and responses, in any order",
  "Tests build one chunk at a time and compare it immediately.",
  ["cmd/stream/status.go", "cmd/conn/default_chunker.go"],
  [("payload assembly", "cmd/stream/status.go AsChunk"), ("header construction", "cmd/conn/default_chunker.go Chunk")],
  observe=["returned chunks"])

prop("V01", "A client reads chunks only after a successful handshake",
  "A client starts consuming chunk data from its connection if and only if its handshake succeeded; a failed handshake returns its error and starts nothing. A new client listens on chunk streams 2 (control) and 3, 4, 5 and 8 (commands), reads with the protocol's initial chunk size of 128, and every accepted connection is handed out exactly once, or its error is reported exactly once.",
  ["inputs", "histories"], "all connections and handshake outcomes, all sequences of accept results",
  "The only client test checks the constructor's type.",
  ["client/client.go", "server/server.go"],
  [("handshake before receive loop", "client/client.go Handshake"), ("accept loop", "server/server.go Accept")],
  observe=["goroutines started", "values on the client and error channels"])

prop("L01", "Close always completes",
  "Every Close call on a reader, demultiplexer, control stream or command manager returns eventually, whatever the other goroutines are doing, and no consumer that stops reading one channel blocks the delivery of unrelated streams for ever.",
  ["schedules"], "all schedules and all consumer behaviours",
  "Needs fairness and unbounded waiting; tests close idle objects only.",
  ["chunk/default_reader.go", "chunk/parser.go", "control/stream.go", "cmd/manager.go"],
  [("unbuffered close channels", "Close methods")],
  observe=["whether Close returns"])

prop("A01", "AMF0 command payloads decode to the values sent",
  "Every command a peer encodes in AMF0 (connect, createStream, publish, play and the others) is decoded into a value with the same fields, and every response encodes to the AMF0 bytes of its fields.",
  ["inputs"], "all AMF0 values",
  "Tests use one literal per command.",
  ["cmd/conn/default_parser.go", "cmd/conn/receivable.go", "cmd/conn/marshallable.go", "cmd/stream/default_parser.go", "cmd/stream/stream_commands.go", "cmd/data/data_frame.go"],
  [("github.com/WatchBeam/amf0/encoding", "external dependency")],
  observe=["decoded command values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
