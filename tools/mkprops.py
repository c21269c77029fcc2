#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are maintained)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
            mechanism=[dict(zip(("name","where"),m)) for m in mech], observe_at=list(observe), hook_needed=hook)))

MSG="serialapi/message.go"; CONN="connection.go"; REP="commands/reports/"
p("C01","Decoding never crashes, whatever bytes arrive",
  "For every non-empty byte buffer received from the controller, decoding terminates without a crash, whatever the start byte, the announced lengths, the function code, the inner payload length or the trailing bytes are. It answers either that the first byte must be dropped, or the size (at least one byte) of the first message in the buffer.",
  ["inputs"],"every byte buffer of length >= 1, of any length and content",
  "Tests decode some twenty hand-written frames; a crash needs a particular combination of announced length, function code and actual length, which no sample covers.",
  [MSG,"serialapi/application_command_handler.go","serialapi/discovery_nodes.go","serialapi/get_node_protocolinfo.go","commands/reports"],
  [("Decode/NewMessage length checks",MSG),("per-report length checks",REP)],observe=["serialapi.Decode"])
p("C02","A frame is accepted exactly when it is complete and its checksum is right",
  "A buffer that begins with the start-of-frame byte yields a message only if all bytes announced by its length byte are present and its checksum byte is the complement of the XOR of the length byte through the last payload byte. An incomplete frame is answered with the announced total size, a complete frame with a wrong checksum is answered with 'drop one byte' and an error, and changing any single payload or checksum byte of a valid frame always makes it rejected.",
  ["inputs"],"every buffer, every announced length 0..255, every single-byte change",
  "Tests use one bad checksum and a few good ones; the statement is about every length, every content and every single-byte change.",
  [MSG],[("checksum comparison in Decode",MSG),("GenerateChecksum",MSG)],observe=["serialapi.Decode","serialapi.GenerateChecksum"])
p("C03","Decoding leaves the buffer alone and looks only at the first frame",
  "Decoding never changes a byte of the buffer it is given, so the bytes that follow a rejected or accepted frame can be decoded afterwards. The decoded message is determined by the bytes of the first frame alone: bytes that follow it in the buffer, or that lie in unused capacity behind it, never reach the message.",
  ["inputs"],"every buffer, every trailing content and spare capacity",
  "Tests never look at the input after the call and never append bytes after a frame.",
  [MSG],[("private copy of the frame in Decode",MSG)],observe=["serialapi.Decode"])
p("C04","Every outgoing frame is well formed and passes the frame check",
  "For every payload of at most 253 bytes, the frame produced for sending is: start-of-frame, payload size plus two, request type zero, the payload unchanged and in order, and the checksum. The frame's size is payload size plus four, the payload buffer is not modified, and decoding the frame consumes exactly the whole frame without a checksum error.",
  ["inputs"],"every payload of 0..253 bytes",
  "One two-byte payload is tested.",
  [MSG],[("CompileMessage",MSG),("GenerateChecksum",MSG)],observe=["serialapi.CompileMessage"])
p("C05","ACK, NAK and CAN are one-byte messages whatever follows them",
  "If the buffer begins with ACK, NAK or CAN, decoding answers size one and a message that is recognised as exactly that kind and no other, regardless of what bytes follow. Any other byte that is not start-of-frame is answered with 'drop one byte' and no message.",
  ["inputs"],"every buffer and every first byte",
  "Tests decode the three bytes alone; on a serial line they normally arrive together with the next frame.",
  [MSG],[("Decode switch on the first byte",MSG),("IsACK/IsNAK/IsCAN",MSG)],observe=["serialapi.Decode"])
p("C06","A decoded application command carries its sender and exactly its own bytes",
  "A message decoded from an application-command frame carries the node id, command class and command code found at their protocol positions, and its report is built from exactly the announced command bytes after those. If the announced command length is less than two or reaches beyond the frame, an error and no message is answered.",
  ["inputs"],"every frame with the application-command function code",
  "Tests check only that no error is returned for a few frames.",
  [MSG,"serialapi/application_command_handler.go"],[("NewMessage",MSG),("NewApplicationCommandHandler","serialapi/application_command_handler.go")],observe=["serialapi.NewMessage"])
p("C07","The node list reply marks exactly the nodes whose bit is set",
  "From a node-list reply, node k (1..232) is marked active exactly when bit (k-1) mod 8 of bitmap byte (k-1) div 8 is present and set. Bitmaps shorter than six bytes are rejected with an error and surplus bytes are ignored.",
  ["inputs"],"every bitmap of every length",
  "One six-byte bitmap is tested.",
  ["serialapi/discovery_nodes.go"],[("NewDiscoverdNodes","serialapi/discovery_nodes.go")],observe=["serialapi.NewDiscoverdNodes"])
p("C08","Protocol info bits are decoded to the right capability",
  "From a protocol-info payload of at least six bytes: listening is bit 7 and routing bit 6 of byte 0, version is its low three bits plus one, max baud is 40000 when bits 3..5 hold the value 2 and 9600 otherwise; FLiRS is set when bit 5 or 6 of byte 1 is, beaming is its bit 4 and security its bit 0; basic, generic and specific class are bytes 3, 4 and 5. Shorter payloads are rejected with an error.",
  ["inputs"],"every payload",
  "Four payloads are tested, each with one or two bits set.",
  ["serialapi/get_node_protocolinfo.go"],[("NewGetNodeProtocolInfo","serialapi/get_node_protocolinfo.go")],observe=["serialapi.NewGetNodeProtocolInfo"])
p("C09","Sensor readings decode to the transmitted signed value, type and unit",
  "A sensor report with a 1, 2 or 4 byte value yields the big-endian two's-complement value of exactly those bytes divided by ten to the transmitted precision (0..7), and the type, scale and size fields found in the header; a report shorter than its own size field announces is rejected with an error. The type name and unit depend only on type and scale and are those of the sensor table, with an empty unit for an undefined scale and an 'Unknown (n)' name for an undefined type.",
  ["inputs"],"every payload: all types, scales, sizes, precisions and values, positive and negative",
  "The tests decode the value 1 with precision 0 only (plus the name table); sign, width, byte order and precision are never combined.",
  [REP+"sensor_multi_level.go"],[("NewSensorMultiLevel",REP+"sensor_multi_level.go")],observe=["reports.NewSensorMultiLevel"])
p("C10","Switch, alarm, id and endpoint reports decode to the sent values",
  "For every payload, binary-switch, multilevel-switch, alarm, manufacturer and multi-channel-endpoint reports either carry exactly the field values at their protocol positions (multilevel values capped at 100, the 0xFE value marked as unknown, manufacturer ids as four lower-case hex digits each, endpoint flags from bits 7 and 6), or are rejected with an error when the payload has an unacceptable length.",
  ["inputs"],"every payload of every length for each report type",
  "Tests sample one or two payloads for each report.",
  [REP+"switch_binary.go",REP+"switch_multilevel.go",REP+"alarm.go",REP+"manufacturer_specific.go",REP+"multi_instance_endpoint.go"],
  [("New* constructors",REP)],observe=["reports.New"])
p("C11","Transition durations decode to the right time span",
  "A duration byte of 0 means no time, 1..127 that many seconds, 128..253 that many minus 127 minutes, and 254 or 255 is reported as an error (device default); its textual form is that of the time span or of the error.",
  ["inputs"],"all 256 bytes",
  "Six of the 256 values are tested.",
  ["commands/duration.go"],[("Duration.Duration","commands/duration.go")],observe=["commands.Duration"])
p("C12","Every received command gives the right kind of report or an error, never both",
  "For every command class, command code and payload, the dispatcher returns either a non-nil report of the kind assigned to that class, code and payload length and no error, or an error; it never returns neither and never crashes. Rendering any returned report, or setting its node, never crashes either.",
  ["inputs"],"every command class, code and payload",
  "Tests dispatch one payload for each known class and a single unknown one.",
  [REP+"report.go"],[("reports.New",REP+"report.go"),("report String methods",REP)],observe=["reports.New"])
p("C13","Switch commands encode the requested state for the requested node",
  "A binary-switch command encodes as send-data to the low byte of the node id, three command bytes (class, set, 0xFF for on and 0x00 for off) and transmit options. A multilevel command does the same with its level, which for any requested number is an integer in 0..99: zero below 1, 99 above 99, and the integer part in between.",
  ["inputs"],"every node id and every finite or infinite level",
  "Five levels and a single node id are tested; none is fractional or negative.",
  ["commands/SwitchBinary.go","commands/SwitchMultilevel.go"],[("SetValue/SetNode/Encode","commands/SwitchMultilevel.go")],observe=["CmdSwitchMultilevel.Encode"])
p("C14","Wrapping a command never alters, drops or reorders its bytes",
  "A raw command encodes as send-data, node id, length byte (command size plus one) and the command bytes unchanged and in order. A multi-channel encapsulation keeps function and node of the wrapped command, raises its length byte by four, inserts the encapsulation header with the endpoint number, and then carries the rest of the wrapped command unchanged; neither modifies the wrapped bytes.",
  ["inputs"],"every command (at least three bytes for encapsulation) and every endpoint",
  "One four-byte command is tested for each.",
  ["commands/raw.go","commands/MultiChannelEncap.go","serialapi/raw.go"],[("Encode","commands/MultiChannelEncap.go")],observe=["Encode"])
p("C15","A response is matched to a request exactly by its criteria, without crashing",
  "For every received frame of at least five bytes and every pending request, matching decides without a crash. It accepts exactly when the frame's function equals the request's (an application command also answers a send-data request) and, unless the request is for protocol info, the frame's node id, command class and command code equal those the request is waiting for, where zero means 'any' and a position the frame does not have never matches a non-zero criterion. Every pending request that a received frame matches, and no other, is removed from the pending table and given the frame's message.",
  ["inputs"],"every complete frame and every request",
  "The test matches a handful of nine-byte frames; short frames, which every stick sends, are never matched.",
  [CONN],[("sendPackage.Match / MatchByteAt / newSendPackage",CONN)],observe=["sendPackage.Match"])
p("C16","A request that leaves the pending table releases its waiter, exactly once",
  "Whenever a request is removed from the table of pending requests, by an answer, a rejection or a timeout, the channel its caller waits on has been closed; a request that stays in the table is still open or was never waited on. A closed channel is never closed or sent on again, so no removal can crash the program.",
  ["schedules","histories"],"every interleaving of reader, writer and timeout workers, every order of answers, rejections and timeouts",
  "Tests run one request with one immediate answer; removal paths (reject, timeout, mismatch) are never taken.",
  [CONN],[("Reader / timeoutWorker / sendPackage.Close",CONN)],
  state=[("inFlight","pending requests by uuid",CONN),("returnChan","waiter's channel; nil once closed",CONN)],observe=["WriteWithTimeout","WriteAndWaitForReport"])
p("C17","The table of pending requests is only touched under its lock",
  "In every execution, each read, iteration or write of the table of pending requests, and of the record of the command being sent, happens while the connection's lock is held (for writing when it is modified), and the lock is released again on every path.",
  ["schedules"],"every interleaving of reader, writer and timeout goroutines",
  "Races need a particular timing; tests run without the race detector and with a single request.",
  [CONN],[("Connection RWMutex",CONN)],state=[("inFlight, lastCommand","shared between goroutines",CONN)],observe=["go race detector"])
p("C18","The receive buffer is consumed without losing or duplicating bytes",
  "While chunks arrive without a pause, the bytes presented to the decoder are exactly the received bytes in order, minus what earlier decodes consumed: one byte after noise or a bad checksum, the whole message after a message, nothing while a frame is incomplete; the bytes left over from earlier chunks are discarded exactly when the wait for the next data lasted more than 40 ms. Processing a chunk always terminates and never crashes, however the stream is cut into chunks.",
  ["inputs","histories"],"every byte stream and every way of cutting it into reads",
  "The test sends each frame as one read; re-synchronisation and partial frames are never exercised.",
  [CONN],[("Reader",CONN)],state=[("receive buffer","bytes received and not yet consumed",CONN)],observe=["Connection.Reader"])
p("C19","Every complete frame is acknowledged exactly once and nothing else is",
  "The receiver writes exactly one single-byte ACK for each complete frame with a correct checksum, before it waits for more data, and writes nothing for noise, incomplete frames, bad checksums or received ACK/NAK/CAN bytes.",
  ["inputs","histories"],"every byte stream",
  "The test sees two frames; counts are not checked.",
  [CONN],[("Reader ACK write",CONN)],observe=["serial port writes"])
p("C20","The writer sends each queued command's frame verbatim and tracks it first",
  "For each queued command the writer writes exactly that command's compiled frame to the port, once, after entering it in the pending table and recording it as the current command under the lock; then it accepts the next command only after the current one was answered by ACK, NAK or CAN or a second has passed. If the caller waits for an answer, a timeout for exactly that command is started.",
  ["histories","schedules"],"every sequence of queued commands and every result of each",
  "The test queues two commands that are both acknowledged at once.",
  [CONN],[("Writer",CONN)],observe=["serial port writes"])
p("C21","NAK fails and CAN resends exactly the command being sent",
  "When NAK arrives, the command currently being sent, and no other, is removed from the pending table and its waiter released. When CAN arrives, exactly that command is queued again, once, and stays pending; ACK changes no pending request, and neither do NAK or CAN when no command is being sent.",
  ["histories","schedules"],"every set of pending commands, every control byte, every iteration order",
  "No test sends NAK or CAN, nor has two commands pending.",
  [CONN],[("Reader control-byte handling",CONN)],observe=["port writes after CAN","waiter after NAK"])
p("C22","A timeout removes exactly its own request",
  "When a request's time is up, exactly that request is removed from the pending table and its waiter released if it is still pending; every other pending request stays untouched, and if it is no longer pending nothing happens.",
  ["histories","schedules"],"every content of the pending table",
  "No test lets a request time out.",
  [CONN],[("timeoutWorker",CONN)],observe=["waiter's channel"])
p("C23","A caller waits on the channel its request is answered on",
  "Sending with a timeout queues exactly one command, whose frame is the compiled form of the given message and whose node, command class and expected-report criteria come from that message and call, and returns the very channel on which that command is answered, even if the answer arrives before the call returns. Waiting for a report forwards the report of the first matching application command, never crashes on an undecodable answer, and always ends by closing the caller's channel.",
  ["schedules","inputs"],"every message and every interleaving of caller, writer and reader",
  "Needs the answer or the timeout to win a race against the caller; tests have a cooperative peer.",
  [CONN],[("Write / WriteWithTimeout / WriteAndWaitForReport / newSendPackage",CONN)],observe=["WriteWithTimeout"])
p("C24","On, Off and Level address the right node with a command it supports",
  "On, Off and Level send exactly one command when the node supports it and nothing otherwise: binary on/off when the node has the binary switch class, otherwise multilevel 99/0 when it has the multilevel class; Level needs the multilevel class and sends the clamped level. The command always goes to that node's id, and whether a class is supported depends only on the node's list of command classes.",
  ["inputs","configurations"],"every node id, every list of command classes, every level",
  "There is no test of node commands.",
  ["nodes/commands.go","nodes/node.go"],[("On/Off/Level/HasCommand","nodes/commands.go")],observe=["interfaces.Writer.Write"])
p("C25","Endpoint lookup and endpoint commands reach exactly the addressed endpoint",
  "Looking up an endpoint by number returns the endpoint with that number when the node has it and nil otherwise, for any integer and for a nil node, without a crash. Commands sent through an endpoint are the node's command wrapped for that endpoint's number and sent to that node; an endpoint report of n endpoints creates exactly endpoints 1..n.",
  ["inputs","configurations"],"every endpoint number and every list of endpoints",
  "There is no test of endpoints beyond decoding the report.",
  ["nodes/endpoints.go","nodes/request_endpoints.go"],[("Endpoint / Endpoint.Write / RequestEndpoints","nodes/endpoints.go")],observe=["interfaces.Writer.Write"])
p("C26","Reports update exactly the matching state of the node",
  "A switch report sets the node's on state (multilevel: on exactly when the level is above zero, and the level), a sensor report sets the value under the lower-case name 'type_unit', an active alarm sets the alarm state and clears it a second later, and nothing else in the node's state changes. Each such change is announced with an update event carrying this node's id; a wake-up releases whoever waits for the node; other reports change nothing. Each report that is received is handed on exactly once, with the id of the node that sent it.",
  ["inputs","histories"],"every report and every previous state",
  "There is no test of state updates.",
  ["nodes/node.go"],[("ProcessEvent","nodes/node.go")],state=[("StateBool/StateFloat","last known state","nodes/node.go")],observe=["Node.StateBool","pushed events"])
p("C27","Locks are always released and never taken twice",
  "No operation on a connection, node, node list or pending request returns, fails or waits without a time limit for others with a lock it took still held, takes a lock it already holds, or releases one it does not hold; every path through an operation keeps lock and unlock balanced.",
  ["schedules","inputs"],"every path through every operation that takes a lock",
  "A missing unlock shows only on the path that lacks it, and only when somebody else needs the lock later.",
  ["nodes/node.go","nodes/list.go","nodes/request_endpoints.go","nodes/request_states.go",CONN,"controller.go"],[("sync.RWMutex use","nodes/node.go")],observe=["deadlock"])
p("C28","The node list behaves as a map from id to node",
  "After adding a node, looking up its id returns that node, every other id is unaffected, and each of its endpoints refers to it; lookups and snapshots never change the list and are made under the list's own lock, and a snapshot contains exactly the nodes of the list and is not affected by later additions.",
  ["histories","schedules"],"every sequence of additions and lookups, from any number of goroutines",
  "Only Get of one added node is used in a test.",
  ["nodes/list.go"],[("List.Add/Get/All","nodes/list.go")],observe=["nodes.List"])
p("C29","Discovery adds exactly the active nodes, each once",
  "After a node-list reply, every active node other than the controller is in the node list with its own id, an event announces it and its identification is started; nodes that were known are kept as they are, and inactive nodes and the controller are not added. No reply, or a reply of another kind, changes nothing.",
  ["inputs","histories"],"every set of active nodes and every set of known nodes",
  "One set with two active nodes is tested, with no known node.",
  ["controller.go"],[("getNodes/initNode","controller.go")],observe=["Controller.Nodes"])
p("C30","The device database returns the device that was asked for",
  "Looking up manufacturer, type and product id returns a device whose own ids are those asked for (ignoring case), or nothing; every device in the database is found by its lower-case ids.",
  ["inputs"],"every triple of four-digit hex ids",
  "There is no test of the database; it has some 1500 generated entries.",
  ["database/devices.go"],[("database.New","database/devices.go")],observe=["database.New"])
p("C31","Mandatory command classes are those of exactly that device class",
  "The mandatory command classes returned for a generic and specific class are exactly those defined for that pair, in full, and nil when the pair has no definition; the answer does not depend on iteration order and asking never changes the definitions.",
  ["inputs"],"all pairs of generic and specific class",
  "There is no test; iteration over a map has a random order.",
  ["database/commandclasses.go","database/mandatory.go"],[("GetMandatoryCommandClasses","database/commandclasses.go")],observe=["GetMandatoryCommandClasses"])
p("C32","The configuration file survives a crash and a failed save",
  "At every moment during a save, whatever step fails or is interrupted, the configuration file holds either the complete previous or the complete new configuration. Loading sets up every node of the file for this connection and announces it, and a missing or malformed file, or one without nodes, is an error or an empty list but never a crash; a save reads a node only under that node's lock.",
  ["crash_points","inputs"],"every point of a crash or failure during a save; every decodable file",
  "There is no test of saving or loading.",
  ["controller.go","nodes/list.go"],[("SaveConfigurationToFile / LoadConfigurationFromFile","controller.go")],observe=["configuration file"])
p("C33","The serial recorder is transparent and records what was really transferred",
  "Reads and writes through the recorder return exactly the bytes, counts and errors of the real port, and write exactly the caller's bytes to it. Each transfer is recorded once, with its direction and a private copy of exactly the bytes transferred, so later reuse of the caller's buffer cannot change it. A single log writer, however often the port is opened, logs every record once and in order, and recording never delays the port.",
  ["inputs","schedules"],"every buffer, count and error, and every later reuse of the buffer",
  "The test logs one constant string.",
  ["serialrecorder/serialrecorder.go"],[("Read/Write/writeToLog","serialrecorder/serialrecorder.go")],observe=["recorded rows"])
p("C34","Combining recorded rows keeps every byte in order",
  "For every sequence of recorded rows, the concatenation of the combined rows handed out so far and the bytes still buffered equals the concatenation of the rows' bytes; rows more than a millisecond apart are never merged, and a combined row carries the direction and data of its own rows only. The tool combines every recorded row with those of its own direction in the order of the file, leaves out no combined row, and prints each one that was asked for once, sorted by time.",
  ["histories","inputs"],"every sequence of rows with any timestamps",
  "There is no test of the tool.",
  ["cmd/serialrecordingtohex/serialrecordingtohex.go"],[("logRowCombiner.combine","cmd/serialrecordingtohex/serialrecordingtohex.go")],observe=["printed rows"])
p("C35","Identification fills in a node from the answers to its own requests, in order",
  "Identification ends, and marks a node identified, only after its protocol info, manufacturer ids and endpoints are known and its states were requested; mandatory command classes come first and the device database's classes for the node's ids after them, before endpoints or states are requested, and the definitions themselves never change. It never crashes on a missing, wrong or late answer but retries after a pause, asks a sleeping node only when it has woken up, and announces what became known as an update of the node.",
  ["histories","fault_sequences"],"every sequence of answers, errors and timeouts, for every new or stored node",
  "The test answers a single protocol-info request.",
  ["nodes/node.go","nodes/protocol_info.go","nodes/manufacurer_specific.go","nodes/request_states.go"],[("Identify","nodes/node.go")],observe=["Node"])
p("C36","Announcing an event never blocks, and updates are saved once they settle",
  "Announcing an event never blocks the announcer, queues the event if and only if the event queue has room, and asks for a save exactly when the event is a node update; the events that are read are those that were queued. A save that was asked for is made, to the configuration file if there is one, once nobody has asked for another for ten seconds, and saving goes on afterwards.",
  ["schedules","histories"],"every fill level of the queue, every event and every sequence of requests and pauses",
  "Tests push a few events into an empty queue; no test waits for a save.",
  ["controller.go"],[("pushEvent/saveDebouncer","controller.go")],observe=["Controller.GetNextEvent","configuration file"])
p("C37","A controller opens exactly when its connection does, and reconnects for ever",
  "Opening a controller fails exactly when there is no port opener or the first attempt to open the connection fails; otherwise the controller returned has loaded the stored nodes of its file before the connection is used, delivers reports to its own nodes, and has discovery and the saver started once each. The connection is opened again a second after each time it ends, with the same opener, for ever; a port opened by name is that port, at 115200 baud, with the configuration file as named by the caller.",
  ["histories","fault_sequences"],"every opener, file name, result of an attempt and sequence of attempts",
  "Tests open one mocked connection.",
  ["gozwave.go"],[("ConnectWithCustomPortOpener","gozwave.go")],observe=["Connect","PortOpener.Open"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert x["statement"].count(". ")<=2,(x["id"])
print(len(P))
