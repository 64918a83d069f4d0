#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
E = "libs/egts/"
R = "cli/receiver/"
SUBS = [E + "egts_sr_%s.go" % n for n in (
    "abs_an_sensors_data abs_cntr_data ad_sensors_data auth_info counters_data dispatcher_identity "
    "egtsplus_data ext_pos_data liquid_level_sensor pos_data response result_code state_data term_identity").split()]
PKG = [E + "egts_pkg.go", E + "egts_pt_response.go", E + "service_data_records.go", E + "record_data.go"]
SRV = [R + "server/server.go"]


def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    })


IN = ["inputs"]
p("C01", "Encoding then decoding a packet gives back the same packet",
  "For every packet built from supported sections with field values in their documented ranges, encoding it and decoding the bytes into an empty packet succeeds with result code 0 and gives back every field value, every record, every subrecord and their order. The same holds for each section encoded and decoded on its own. Only the resolution of the wire format (one unit of latitude/longitude, zero padding of the fixed-length terminal identity strings) may be lost.",
  IN, "all packets: every header flag combination, routed or not, both packet types, any number of records and subrecords up to 65535 bytes, every subrecord type, every optional-field combination, boundary and random values",
  "Tests round-trip about two dozen literal structures, mostly with one record, one or two optional-field combinations per section and symmetric values.",
  PKG + SUBS, [("Encode/Decode pairs", E)], ["Package.Encode/Decode", "Encode/Decode of every section"])
p("C02", "Bytes follow the EGTS layout of GOST R 54619-2011 / Order 285",
  "The bytes written for a packet are exactly those the EGTS standard prescribes for its field values (field order, width, little-endian byte order, flag bit positions, CRC-8 of the header, CRC-16 of the body), and standard-conforming bytes are read into exactly the values they carry. An independent implementation of the standard therefore reads what this library writes and vice versa.",
  IN, "all packets of supported sections, in both directions; corpus of recorded terminal packets included",
  "An encode/decode pair that agrees with itself can still disagree with every terminal in the field; tests pin a few byte strings only, leaving most flags, counters, sensors and optional fields unpinned.",
  PKG + SUBS + [E + "crc.go", E + "const_types.go"], [("field readers and writers", E), ("crc8/crc16", E + "crc.go")],
  ["Package.Encode output", "Package.Decode fields"])
p("C03", "No input bytes can crash or hang the decoder",
  "Decoding any byte string as a packet, as a record set, or as any section returns in bounded time and memory with either a value or an error; it never panics, never loops and never kills the process.",
  IN, "arbitrary byte strings: random, truncated, bit-damaged, and structurally mutated packets with repaired checksums so that the damage reaches the inner decoders",
  "Tests decode well-formed bytes only; the receiver exposes the decoder to every TCP peer.",
  PKG + SUBS, [("length checks before slicing", E + "egts_pkg.go"), ("short-read errors", E)], ["every Decode entry point"])
p("C04", "A damaged packet is never accepted",
  "A packet whose header or body does not match its checksum is refused with a non-zero result code: header damage is reported as a header error (131 or 137) and body damage as a data checksum error (138), whatever the damaged bytes would otherwise mean. This includes every burst of up to 8 damaged bits in the header and up to 16 in the body or its checksum.",
  IN, "valid packets of all shapes times bit flips, bursts, byte substitutions, swaps and random overwrites at every position",
  "No test damages a packet, so skipped or misordered checksum checks, or checksums over the wrong range, go unnoticed.",
  [E + "egts_pkg.go", E + "crc.go"], [("header and body CRC checks", E + "egts_pkg.go")], ["result code and error of Package.Decode"])
p("C05", "Truncated data and lying lengths are refused, not filled in",
  "When a packet, record, subrecord or field ends before its declared or required length, decoding reports an error; missing bytes are never invented and a record never takes bytes of its neighbour. The one tolerated form is a final record that consists of its header alone.",
  IN, "every cut point of every packet, record set and section, and every alteration of FDL, RL and SRL that makes a length exceed the data, with checksums repaired",
  "Tests contain no truncated input at all.",
  PKG + SUBS, [("io.ReadFull of every field", E), ("SRL and RL bounds", E + "record_data.go")], ["error of every Decode entry point"])
p("C06", "Re-encoding a decoded packet preserves it",
  "Any packet the decoder accepts can be encoded again, the result is a valid packet, and decoding it yields the same values (coordinates within one wire unit).",
  IN, "arbitrary accepted byte strings: recorded packets, generated packets and structural mutations with trailing bytes, unused bits set and unusual lengths",
  "Round trips in tests start from hand-written structures, never from arbitrary accepted bytes, and a proxy that forwards packets depends on this direction.",
  PKG + SUBS, [("lengths recomputed on encode", E)], ["Decode, Encode, Decode"])
p("C07", "Time, coordinates and speed convert exactly over their whole range",
  "Every 32-bit navigation time maps to 2010-01-01T00:00:00Z plus that many seconds and back; every latitude/longitude value maps to value*90/0xFFFFFFFF (180 for longitude) degrees, monotonically, and degrees map back to within one unit; speed maps at 0.1 km/h wire resolution truncated to whole km/h. Encoding a time, coordinate or speed the wire cannot express fails with an error; a position that is written always reads back as the one given.",
  IN, "all 32-bit times and coordinates (boundaries, adjacent pairs, random), any time zone and sub-second part, all 14-bit speeds with both sign bits; times, degrees and speeds beyond either end of the wire range, NaN and infinities",
  "Tests use three or four positions; range ends, zones and adjacent values are never tried.",
  [E + "egts_sr_pos_data.go"], [("conversions", E + "egts_sr_pos_data.go")], ["SrPosData.Encode/Decode"])
p("C08", "Lengths and checksums in encoded packets are always the true ones",
  "Whatever length or checksum values are already present in the structures, encoding writes the header length, frame data length, record lengths, subrecord lengths, subrecord types and both checksums that match the bytes it produces; the reported Length of every section equals the number of bytes it encodes to. Content that does not fit a 16-bit length is refused with an error instead of being written with a wrapped length, and so is a subrecord of a kind that has no subrecord type, unless its type is given.",
  IN, "all packets with arbitrary stale derived fields, edits after decode (fields toggled, records added or removed), and content around and above 65535 bytes",
  "Tests pre-fill the right lengths or zeros.",
  PKG + SUBS, [("length computation on encode", E)], ["Package.Encode output", "Length of every section"])
p("C09", "A value that does not fit its field never corrupts another field",
  "Encoding a value outside its wire range either fails with an error or affects that field alone: all other fields, records and subrecords of the packet decode unchanged.",
  IN, "every numeric and string field with a narrower wire width than its Go type (sensor number, speed, sign bits, 24-bit values, coordinates, time, fixed-length and separator-terminated strings) times out-of-range values",
  "Tests only use values that fit.",
  SUBS, [("range checks and masks", E)], ["Encode then Decode"])
p("C10", "Encoding and decoding are pure and independent of each other",
  "Decoding never modifies or keeps a reference to the input bytes, encoding the same packet twice gives the same bytes, and results do not depend on what was encoded or decoded before (into the same Package variable either) or concurrently.",
  ["inputs", "histories", "schedules"], "arbitrary packets, sequences of operations on them in any order, and concurrent use from several goroutines",
  "Each test performs one operation on fresh values in one goroutine.",
  PKG + SUBS, [("no package-level mutable state; fresh buffers", E)], ["Package.Encode/Decode results and inputs"])
p("C11", "The result code says truthfully whether and where decoding failed",
  "Decoding a packet returns code 0 exactly when it returns no error; otherwise the code is the standard one for the layer that failed: 131 or 137 for the header, 132 for a missing or incomplete body or body checksum, 138 for a body checksum mismatch, 133 for an unsupported packet type, 129 for an intact body that cannot be parsed.",
  IN, "arbitrary bytes and packets with one generated defect in a known layer",
  "The code is what the receiver sends to terminals; tests ignore it.",
  [E + "egts_pkg.go", E + "errors.go"], [("return codes", E + "egts_pkg.go")], ["code and error of Package.Decode"])
p("C12", "EGTS_PLUS data follows the published protobuf schema",
  "EGTS_PLUS subrecords are read and written as the storage_record message of docs/egts_sr_egtsplus_data.proto: every field of every nested message is carried under its published number, type and cardinality, and bytes lacking a required field are refused.",
  IN, "all messages of the schema: every nested message, repeated fields, boundary numbers, arbitrary subsets of optional fields, missing required fields, fields in any order",
  "One literal message is tested; the schema has nineteen messages and over a hundred fields.",
  [E + "egts_sr_egtsplus_data.go", "docs/egts_sr_egtsplus_data.proto"], [("field tags", E + "egts_sr_egtsplus_data.go")], ["StorageRecord.Decode/Encode"])

p("C13", "The JSON of a packet carries every value",
  "Package.ToBytes, the serialization a storage is given when it is handed a packet, returns one valid JSON document for every decoded or hand-built packet (unless it holds a number that JSON cannot express). In it every header field, every record, every subrecord in order and every section field stands, under the abbreviation of the standard (EGTS_PLUS data under the field names of the published schema), with the packet's value; text that is valid UTF-8, times, coordinates and flag strings included. Serializing is repeatable and changes nothing in the packet.",
  IN, "all packets of supported sections, decoded and built by hand",
  "No test reads the JSON of a packet.",
  PKG + SUBS, [("ToBytes and the json tags", E + "egts_pkg.go")], ["Package.ToBytes output"])
p("S01", "Every application packet is confirmed once, record by record, in order",
  "For each intact application packet received, the server sends exactly one well-formed confirmation, carrying that packet's identifier, result 0 and one confirmation per record with the record's number and status 0 in the order received, sent under a service of those records; confirmations come in packet order. Nothing else is sent, except the authorization result.",
  ["inputs", "histories"], "arbitrary sequences of application packets on one connection: any identifiers (repeated, 0, 65535), record counts from none to thousands, all subrecord types, sizes up to the protocol limit, routed headers",
  "The only server test sends one packet on one connection.",
  SRV, [("response assembly", R + "server/server.go")], ["bytes received by the client"])
p("S02", "Every received position is stored exactly once, unaltered, for its object",
  "For every intact application packet, each position in it reaches the storage exactly once, in order, with its signed coordinates, whole km/h speed, navigation time and the object id of its record (a record without one belongs to the object of the record before it). Packets without positions store nothing.",
  ["inputs", "histories"], "arbitrary packet sequences with any number of positions per packet (several records, several positions per record), all hemispheres, several objects per packet, positions mixed with every other subrecord type",
  "The test sends one packet with one position and only counts one save.",
  SRV + [R + "storage/packet.go"], [("record assembly and save", R + "server/server.go")], ["records passed to the storage"])
p("S03", "TCP segmentation never changes what the server does",
  "However a byte stream is split into TCP segments, the server produces the same replies and stores the same records as when every packet arrives in one piece.",
  ["inputs", "schedules"], "packet sequences times arbitrary cut points (inside headers, between packets, byte by byte, several packets glued together) and delays between segments",
  "Test traffic always arrives as one small segment.",
  SRV, [("header and body framing", R + "server/server.go")], ["client replies", "storage records"])
p("S04", "Damaged packets are answered with an error, not stored, and harm nothing else",
  "A packet with intact framing but damaged or unparsable content is answered with one confirmation carrying a non-zero result and stores nothing; packets before and after it on the same connection are confirmed and stored normally.",
  ["inputs", "histories"], "packet sequences with any mix of intact packets and packets with body damage, header checksum damage, unsupported packet types, unknown or malformed subrecords",
  "No test sends a damaged packet.",
  SRV + [E + "egts_pkg.go"], [("decode error path", R + "server/server.go")], ["client replies", "storage records"])
p("S05", "Connections do not affect each other",
  "With any number of concurrent connections, each client receives exactly the confirmations for its own packets in its own order, and exactly the positions sent are stored, each under its own object; clients that misbehave or disconnect, and records that take long to store, do not hold up the others.",
  ["schedules", "histories", "inputs"], "up to dozens of concurrent connections with interleaved packets, equal identifiers across connections, malformed traffic, aborted connections; also under the race detector",
  "The test uses a single connection; shared state between connection handlers cannot show.",
  SRV + [R + "storage/store.go"], [("per-connection state", R + "server/server.go")], ["replies per connection", "storage records"])
p("S06", "No byte stream can take the receiver down",
  "Whatever bytes clients send, however they disconnect and however many of them connect at once or one after another, the receiver process keeps running and keeps serving well-behaved connections, existing ones all the time and new ones as soon as it has resources for them; its memory does not grow with the number of packets or connections it has already served.",
  ["inputs", "histories"], "arbitrary byte streams: random, hostile lengths, damaged and truncated packets, valid checksums over malformed content, abrupt disconnects at any byte",
  "Tests send one valid packet.",
  SRV + PKG, [("framing checks and decode errors", R + "server/server.go")], ["service of a fresh connection after each stream"])
p("S07", "Telemetry is confirmed only after it has been stored",
  "A packet with positions is confirmed with result 0 and record status 0 only after the storage has accepted it; when storing fails, the confirmation carries a non-zero result so that the terminal keeps its data, and later packets are unaffected.",
  ["fault_sequences", "schedules", "histories"], "packet sequences times storage failures at any position, and storage delays during which the connection is observed",
  "The test storage never fails and never delays.",
  SRV + [R + "storage/store.go"], [("save before response", R + "server/server.go")], ["client replies relative to storage calls"])
p("S08", "Authorization requests get exactly one valid authorization result",
  "A packet with terminal identity or authorization data is answered, after its confirmation, by exactly one well-formed application packet with one record of the authorization service carrying one result code 0; packets without such data get none.",
  ["inputs", "histories"], "packet sequences mixing identity and authorization subrecords (several per packet, any optional fields) with other data",
  "No test authorizes.",
  SRV, [("EGTS_SR_RESULT_CODE assembly", R + "server/server.go")], ["client replies"])
p("S09", "Responses are never answered and non-EGTS peers are disconnected",
  "Intact response packets, and application packets that only confirm records, get no reply and store nothing, and the connection stays usable; a packet that does not start with protocol version 1 closes the connection without any reply or stored record.",
  ["inputs", "histories"], "sequences mixing response packets (with and without record confirmations), confirmation-only application packets and normal packets; any first byte other than 1 after any prefix of traffic",
  "No test sends a response or foreign traffic; answering responses makes two peers talk forever.",
  SRV, [("packet type dispatch", R + "server/server.go")], ["client replies and connection state"])
p("S10", "Silent connections are closed after conn_ttl, active ones are not",
  "A connection on which no data arrives for longer than the configured time is closed by the server, whether it never sent anything, stopped between packets, stopped inside a packet or stopped reading the replies as well; a connection that keeps delivering data more often than that stays open and is served.",
  ["histories", "schedules", "configurations"], "connection histories: silent from the start, after packets, mid-header, mid-body; active with various gaps shorter than the limit, whole packets and partial ones; several limits",
  "No test waits.",
  SRV + [R + "config/config.go"], [("read deadline", R + "server/server.go")], ["connection state seen by the client"])
p("S11", "Stopping the server ends the service",
  "After Stop, whenever it is called (before, during or after the start of Run, or twice), Run returns and no new connection is served; before it, every new connection is. Stopping one server does not affect another.",
  ["histories", "schedules"], "stop after any history of connections and packets, open or idle connections at the time of the stop, stop before or while Run starts",
  "The test stops the server at its very end and checks nothing.",
  SRV, [("listener close", R + "server/server.go")], ["return of Run", "new connection attempts"])
p("S12", "Stored records carry the packet's sensors, identity and numbers",
  "The stored record carries, besides positions, the server id, the time at which the packet was received, the terminal's IMEI, every analog sensor reading and every liquid level reading of the packet in order with numbers, flags and units, and the record number assembled from counters 110 (three low bytes) and 111 (high byte), or the packet identifier when there are none.",
  ["inputs"], "packets with positions and any mix of sensor, liquid level, counter and identity subrecords with arbitrary values and presence flags, several packets and pauses on one connection",
  "The test does not look into the record.",
  SRV + [R + "storage/packet.go"], [("record assembly", R + "server/server.go")], ["records passed to the storage"])

p("T01", "Every configured storage receives every record",
  "Saving a record hands exactly that record once to every storage added, in any combination of failing and working storages and from any number of goroutines, and reports an error exactly when at least one storage failed.",
  ["fault_sequences", "histories", "schedules"], "any number of storages, any pattern of failures over a sequence of saves, saves from many goroutines at once",
  "No test uses more than one storage or a failing one.",
  [R + "storage/store.go"], [("fan-out loop", R + "storage/store.go")], ["calls to the storages", "returned error"])
p("T02", "Each connector delivers the exact record to the configured destination",
  "For redis, nats, nsq, postgresql, rabbitmq and tarantool_queue, saving delivers exactly one message whose payload is the record's serialized bytes, unmodified, to the configured server, channel, topic, table, exchange and routing key, queue and database with the configured credentials, without expiry or delay, also when many connections save at the same time; a save that succeeds is delivered also when the broker goes away and comes back, and saving works again when it is back (rabbitmq's client does not reconnect).",
  ["inputs", "configurations", "histories", "schedules"], "arbitrary payload bytes and sizes, sequences of saves, saves from several goroutines, and configurations (destinations, credentials, databases), against in-process protocol-level brokers",
  "The connectors have no tests that run without a live broker.",
  [R + "storage/store/%s/connector.go" % s for s in ("redis", "nats", "nsq", "postgresql", "rabbitmq", "tarantool_queue")],
  [("Init and Save", R + "storage/store")], ["messages received by the broker"])
p("T03", "Connector failures surface as errors, never as crashes or false success",
  "When a record cannot be serialized, a configuration is missing or unusable, or the broker is unreachable or refuses the connection, or a broker that acknowledges each message (redis, nsq, postgresql, tarantool_queue) rejects it or drops the connection instead, or the broker has closed the connection or channel before the save, the connector returns an error (nats, which holds messages back while it reconnects, may accept and deliver them later); it neither panics nor reports success.",
  ["fault_sequences", "configurations"], "connectors times injected failures: nil or incomplete configuration, serialization errors, refused connections, authentication errors, broker-side rejections, connections lost before the save",
  "No test injects a fault.",
  [R + "storage/store/%s/connector.go" % s for s in ("redis", "nats", "nsq", "postgresql", "rabbitmq", "tarantool_queue")],
  [("error returns", R + "storage/store")], ["errors of Init and Save"])
p("T04", "Storage configuration selects exactly the named storages",
  "Loading the storage section connects each of the six supported names to its own kind of storage with its own parameters; an empty section is reported as no storage, an unsupported name as unsupported, and a storage that cannot be initialized as an error; afterwards saved records reach exactly the loaded storages.",
  ["configurations"], "arbitrary subsets of supported storages with individual parameters, unsupported names, empty sections, failing initialization",
  "No test loads storages without PostgreSQL.",
  [R + "storage/store.go"], [("LoadStorages", R + "storage/store.go")], ["returned error", "brokers reached by a save"])
p("T05", "Exported JSON carries the record without loss",
  "The serialized record is valid JSON with the documented keys, from which every field value can be recovered exactly; the log storage prints the same content and never fails on a valid record.",
  IN, "records with arbitrary field values, list lengths, unicode and control characters in text, extreme floats",
  "No test reads the JSON back.",
  [R + "storage/packet.go", R + "storage/default.go"], [("JSON tags", R + "storage/packet.go")], ["ToBytes output", "log output"])
p("F01", "The configuration file is read as documented",
  "Every documented setting (host, port, conn_ttl in seconds, log_level, storage sections with string parameters) is taken from the file exactly; listen address, timeout and log level derive from it, unknown log levels mean INFO, settings that are left out are empty (or 0), settings it does not know are ignored, and a missing or malformed file is an error.",
  ["configurations"], "arbitrary settings rendered in different YAML forms (order, quoting, comments, missing keys, unknown keys, document marks, files of 100 KB and more), malformed files",
  "One literal configuration is tested.",
  [R + "config/config.go", "configs/receiver.yaml"], [("YAML tags", R + "config/config.go")], ["config.New result and getters"])
p("G01", "packet-gen sends the packet it was asked for and reports the outcome",
  "The packet-gen tool sends one valid packet with the given packet id, object id, time, signed position and liquid level, exits 0 exactly when the server confirms that packet and its records with success, and exits non-zero on missing or unacceptable arguments, on wrong or absent confirmations, and on any negative result or record status in the answer. Without -server it talks to localhost:5555.",
  ["inputs", "fault_sequences"], "arbitrary argument values times server behaviours (success, error result, error record status, wrong packet id, no record confirmations, garbage, silence, disconnect)",
  "The tool has no tests.",
  ["cli/packet-gen/main.go"], [("argument handling and ack checks", "cli/packet-gen/main.go")], ["bytes received by a server", "exit status"])
p("G02", "send_egts.py sends the packets of a file and prints the answers",
  "tools/send_egts.py connects to the given host and port and sends the packets of the file (one per line, in hexadecimal digits of either case, with any line ends and with or without one after the last line) unchanged and in order over one connection, each only after the one before has been answered; it prints every packet and every answer of up to 2,048 bytes in that order, closes the connection and exits 0. It exits non-zero when the file cannot be read, the server cannot be reached or a line is not hexadecimal.",
  ["inputs", "histories"], "files of 1 to 60 packets of any bytes, 1 to 70,000 bytes each, answers of 1 to 2,048 bytes, at once or delayed",
  "No test runs the tool.",
  ["tools/send_egts.py"], [("reading, sending, receiving", "tools/send_egts.py")], ["bytes at a fake server", "output and exit status of the tool"])
p("M01", "The receiver program serves its configuration end to end",
  "Started with a configuration file, the receiver program listens on the configured address, confirms packets and delivers their records to the configured storage; without a usable storage it prints the records to its log instead (at log levels that include information messages) and keeps serving, and without a usable configuration file it exits with an error.",
  ["configurations", "inputs", "histories"], "generated configurations (addresses, log levels, storage or none, unusable storage) times packet sequences through the real program",
  "The integration test needs PostgreSQL and sends one packet.",
  [R + "main.go", R + "config/config.go", R + "storage/store.go", R + "storage/default.go"] + SRV,
  [("wiring of configuration, storages and server", R + "main.go")], ["TCP replies, broker messages, log output and exit status of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
