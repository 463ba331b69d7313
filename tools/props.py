#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CORE="src/packets/core.rs"; TUN="src/packets/tunneling.rs"; EMI="src/packets/emi.rs"; ADDR="src/packets/addresses.rs"
APDU="src/packets/apdu.rs"; TPDU="src/packets/tpdu.rs"; DPT="src/dp_types.rs"; UDP="src/transport/udp.rs"; MON="src/transport/udp_monitor.rs"

p("C01","Decoding untrusted bytes never panics",
"For every byte string whatsoever, each public packet decoder, the received-datagram classifier, the cEMI / L_Data decoders and the datapoint decoders return a value or an error. None of them panics: no arithmetic overflow, no out-of-range index, no unwrap of an absent value, no unreachable or unimplemented branch.",
["inputs"],"all byte strings of every length, as frame, cEMI message, information block or datapoint payload",
"The unit tests decode three hand-written well-formed frames; the crashes live in lengths and counts of malformed ones.",
[CORE,TUN,EMI,DPT,UDP],[("length arithmetic and reader calls of every decoder","from_packet / from_cemi / from_bytes / parse_response")])

p("C02","Building addresses, values and requests never panics",
"For every argument value the public constructors, accessors, text parsers and encoders for addresses, datapoint values, APDUs, L_Data requests and KNXnet/IP frames return normally; bad input is reported through their error result where they have one. In particular an empty or oversized payload and an out-of-range number never crash the caller.",
["inputs"],"all argument values of every public synchronous function outside the decoders",
"The tests build a handful of small values; overflow and empty-input paths need extreme arguments.",
[ADDR,APDU,TPDU,EMI,CORE,TUN,DPT],[("checked or saturating arithmetic, get instead of index","encoders and constructors")])

p("C03","Client operations and background tasks never panic",
"Whatever the network, the peer and the application do (send or receive fails, a channel is closed, any datagram arrives), the public asynchronous operations of the client and of the bus monitor report failure through their result, and the background session task never panics.",
["inputs","fault_sequences","histories"],"all I/O outcomes, all received datagrams, all arguments",
"No stable test drives the transports at all.",
[UDP,MON],[("error propagation at every socket and channel call","UdpClient / UdpMonitor operations, spawned session task")])

p("C04","Every frame has the right header, service code and true length",
"Every KNXnet/IP frame the library encodes starts with header size 6 and version 0x10, carries the service identifier of its kind (connect 0x0205/0x0206, connection state 0x0207/0x0208, disconnect 0x0209/0x020A, search 0x0201/0x0202, tunnelling request 0x0420 and ack 0x0421, feature response 0x0423, feature set 0x0424) and states as total length exactly the number of octets produced (for sizes a 16-bit length can express). Nested length octets (endpoint, request-information and description blocks, connection header) likewise equal the number of octets of their block for sizes the length octet can express, padding of an odd description block excepted.",
["inputs"],"all field values of all encodable frames",
"No test encodes a frame.",
[CORE,TUN],[("packet() encoders","every packet() of a frame or block")])

p("C05","Encoding then decoding gives back the same message",
"For every frame or block the library can both encode and decode (header, endpoint, connect response and its data block, connection state request/response, disconnect request/response, search request/response, all description blocks, tunnelling request/ack, feature response), decoding the encoded octets succeeds and yields every field with its original value. Exempt are a description block's own redundant length and type fields, undefined status bits, address parts outside their field width and a connect response with a refusal status (an error).",
["inputs"],"all field values of all message kinds with both directions",
"Tests decode two frames and encode none, so a field swapped or dropped on one side is invisible.",
[CORE,TUN],[("sibling packet()/from_packet() pairs agree on one layout","core.rs, tunneling.rs")])

p("C06","Decoders accept only frames of their own kind",
"A frame decoder that succeeds has seen header size 6, protocol version 0x10 and the service identifier of exactly its own message kind, and where the format fixes a length (connection header 4, endpoint block 8, data block 4, total length of acks, state and disconnect responses, feature responses) exactly that length. A connect response with a refusal status the library knows (0x22, 0x23, 0x24, 0x29) is an error.",
["inputs"],"all byte strings",
"The tests never feed a frame with a wrong header, code or length.",
[CORE,TUN],[("ensure_whatever! validation before each field","from_packet decoders")])

p("C07","Truncated input is rejected, never padded",
"A decoder succeeds only if every octet of its result was present in its input: the fixed fields of its kind and as many octets of its variable part as its length field announces. When the input ends earlier the result is an error, never a value completed with invented or zero octets.",
["inputs"],"all byte strings and all announced lengths",
"No test feeds a truncated frame; a short read is silent.",
[TUN,EMI,CORE,DPT],[("exact reads","from_packet / from_cemi / from_bytes")])

p("C08","A message depends only on the octets of its own datagram",
"Every message the transports decode from the network is decoded from exactly the octets of the datagram just received: never from the unused rest of the receive buffer nor from what an earlier datagram left there.",
["histories","inputs"],"all sequences of datagrams of all sizes",
"Needs several datagrams of different sizes on a real socket; no stable test receives one.",
[UDP,MON],[("receive count bounds the decoded slice","search, connect handshake, session receive loop, connection state")])

p("C09","Received datagrams are classified by service identifier",
"A datagram is handled as tunnelling request, tunnelling ack, feature response, disconnect response, connection state response or disconnect request exactly when its service identifier is 0x0420, 0x0421, 0x0423, 0x020A, 0x0208 or 0x0209 respectively and its content decodes. Any other identifier, and a datagram too short to carry one, is an error.",
["inputs"],"all byte strings",
"No test classifies a datagram.",
[UDP],[("parse_response dispatch chain","parse_response")])

p("C10","Tunnelled frames are acknowledged with their own identity",
"While a session is up, every tunnelling request and every feature response that decodes is answered by exactly one tunnelling ack that carries the channel id and sequence number of that very frame and status 0, sent before the telegram is handed to the application and before the next datagram is read. Tunnelling acks and state responses are never answered with a frame.",
["histories","inputs"],"all datagram sequences",
"Needs a scripted peer; no stable test drives the receive loop.",
[UDP,MON],[("ack construction and send in the receive loop","handle_recv_from_knx_device")])

p("C11","Every decodable telegram is delivered once, bad ones do not end the session",
"Each received tunnelling request whose cEMI content decodes puts exactly that one cEMI message on the application queue before the next datagram is read, and nothing else ever does. A tunnelling request whose cEMI content does not decode is skipped and the session goes on.",
["histories","inputs"],"all datagram sequences",
"Needs a scripted peer and queue observation.",
[UDP,MON],[("queue send in the receive loop","handle_recv_from_knx_device")])

p("C12","A heartbeat never discards a received telegram",
"However the heartbeat timer and the receive path interleave, sending a heartbeat does not abandon a datagram that has been taken from the socket but not yet fully acknowledged and delivered.",
["schedules"],"all interleavings of timer ticks with receive, acknowledge and queue steps",
"The loss needs a tick while the receive path is suspended after the socket read; tests cannot force that schedule.",
[UDP,MON],[("receive future survives heartbeat ticks","select loop of the session task")])

p("C13","Disconnects are answered and end the session state",
"A disconnect request from the device is answered with one disconnect response carrying the same channel id and status 0, after which the session counts as lost and is re-established. A disconnect response ends the background task. In both cases the stored session is invalidated, so later requests report an error and the monitor does not claim to be connected.",
["histories"],"all histories that contain a disconnect in either direction",
"No stable test performs a disconnect.",
[UDP,MON,CORE],[("disconnect arms of the receive loop and of the session task","handle_recv_from_knx_device, session task")])

p("C14","Sequence numbers count every tunnelled request by one",
"Within one session the outgoing tunnelling requests and feature-set requests carry consecutive sequence numbers modulo 256: the client's first one is 0, the monitor's enabling request is 0 and its next is 1, each request uses the stored counter and advances it by exactly one, under the session lock. A new session starts over.",
["histories","schedules"],"all sequences of requests and reconnects, including wrap-around after 256 requests",
"Wrap-around and reconnects need hundreds of requests against a live peer.",
[UDP,MON],[("counter take-and-advance under the lock","get_next_sequence_nr"),("initial value","ConnectionData construction")])

p("C15","Requests carry one current session, or fail without sending",
"Every frame a request operation sends on a session carries the channel id (and endpoint) of the session that is stored when the frame is built, and a request's sequence number and channel id are taken from the same session even if a reconnect happens concurrently. When no session is up the operation returns an error and sends nothing.",
["schedules","histories"],"all interleavings of requests with loss and re-establishment of the session",
"Needs a reconnect scheduled between two lock acquisitions.",
[UDP,MON],[("session data read under one lock acquisition","tunnel_req, set_feature, disconnect, connection state")])

p("C16","A session exists only after a positive connect response",
"A session is stored only when a connect response decoded with status 0, and it holds that response's channel id and data endpoint; a failed, refused, late or undecodable attempt is retried after a pause without storing anything. When the receive path reports an error or a heartbeat cannot be sent the stored session is dropped before the next connect attempt.",
["histories","fault_sequences"],"all outcomes of every connect attempt and every loss of the session",
"No stable test completes a handshake.",
[UDP,MON],[("handshake check and retry loop","connect / try_connection"),("store and clear of the session","session task")])

p("C17","The session is kept alive and its failure noticed",
"While a session is up a connection state request for its channel is sent at least every 60 seconds, together with receiving. A connection state response with non-zero status makes the session count as lost; one with status zero does not.",
["histories"],"all histories of heartbeats and state responses",
"A test would have to wait for minutes and script the peer.",
[UDP,MON],[("heartbeat branch","select loop of the session task"),("state response arm","handle_recv_from_knx_device")])

p("C18","No request waits for the device without a time limit",
"Group read, group write, connection status and disconnect of the client, and the connect handshake, never wait for an answer of the device without a time limit: every suspension on the socket or on the telegram queue in them is bounded, and running out is reported as an error (or leads to a retry).",
["schedules","fault_sequences"],"all behaviours of a silent, slow or vanished device",
"A test cannot show that a wait is bounded on every path.",
[UDP,MON],[("timeout() around every wait","UdpClient operations, try_connection")])

p("C19","Only the session task reads the session socket",
"Datagrams of an established session are taken from its socket only by the session's own receive path, so no request operation can steal or lose a telegram meant for it or leave its own answer to another reader.",
["schedules"],"all interleavings of request operations with the session task",
"Which reader wins is a race.",
[UDP,MON],[("who may call recv on the session socket","transport modules")])

p("C20","The locks cannot deadlock",
"No operation or task waits for a lock it already holds, and the locks are always taken in one global order. The session-state lock is never held while waiting for the device or for an application channel.",
["schedules"],"all interleavings of all public operations and background tasks",
"A deadlock needs a specific interleaving.",
[UDP,MON],[("scope of lock guards","transport modules")])

p("C21","A group read returns only a value sent to that address",
"A group read sends exactly one tunnelling request holding an L_Data request with the group-value-read service addressed to the given address, and succeeds only with the payload of an L_Data indication whose destination equals that address and which carries a value (is not itself a read). Confirmations, other indications and unknown messages are skipped; a closed queue or the time limit is an error.",
["histories","inputs"],"all sequences of telegrams arriving during the read",
"Needs interleaved foreign traffic from a scripted peer.",
[UDP,EMI],[("destination comparison before returning","read_group_address_value")])

p("C22","A group write succeeds only on a positive confirmation",
"A group write sends exactly one tunnelling request holding an L_Data request with the group-value-write service, the given address and exactly the given payload, and succeeds only after an L_Data confirmation that decodes and is positive. A negative or undecodable confirmation, a closed queue and the time limit are errors; unrelated telegrams are skipped.",
["histories","inputs"],"all sequences of telegrams arriving during the write",
"Needs negative confirmations and foreign traffic from a scripted peer.",
[UDP,EMI],[("confirmation check before Ok","write_group_address_value")])

p("C23","The monitor yields exactly the indications, in order",
"Waiting for the next monitor message takes messages from the queue in order, skips confirmations and unknown messages, and returns the first L_Data or bus-monitor indication, or an error if that indication does not decode; a closed session queue is an error. It never drops an indication and never returns anything else.",
["histories","inputs"],"all sequences of queued messages",
"No test exercises the monitor.",
[MON],[("message code dispatch","next_msg")])

p("C24","Discovery reports every valid answer and stops in time",
"A search sends one search request to 224.0.23.12:3671 naming the searching socket's own endpoint, and returns every answer that decodes, in order of arrival, when the given time has elapsed since the request; answers that do not decode are ignored and do not end the search, and further answers do not extend it.",
["histories","inputs"],"all sequences and timings of answers, malformed ones included",
"Needs several responders, malformed answers and precise timing.",
[UDP,CORE],[("receive loop with one deadline","search")])

p("C25","Addresses map one-to-one to their 16-bit wire form",
"Individual addresses (area 0-15, line 0-15, device 0-255) are encoded as 4/4/8 bits, three-level group addresses (0-31/0-7/0-255) as 5/3/8 bits, two-level ones (0-31/0-2047) as 5/11 bits and free ones as the plain number, and decoding inverts this. Text with the wrong number of parts, a non-number or an out-of-range part is rejected; well-formed text is accepted and denotes exactly the numbers written.",
["inputs"],"all addresses and all strings",
"The tests sample a few in-range addresses.",
[ADDR],[("shift/mask codecs and range checks in the text parsers","addresses.rs")])

p("C26","Code tables are exact inverses",
"For tunnelling features, cEMI additional-information types, description types and KNX media the conversion from octet inverts the conversion to octet: every variant's code converts back to that variant, each octet gives at most that one variant, and every other octet is an error. The codes are those of the standard (features 2, 6, 7, 8; additional information 1 to 10 and 0xFE; description blocks 1 to 5 and 0xFE; media TP1 2, PL110 4, RF 0x10, IP 0x20).",
["inputs"],"all 256 octets and all variants of the four tables",
"No test covers the tables.",
[TUN,EMI,CORE],[("TryFrom<u8> implementations against enum discriminants","tunneling.rs, emi.rs, core.rs")])

p("C27","Integer datapoint values survive the wire unchanged",
"For the scaled, 8-bit, 16-bit signed and unsigned, 32-bit unsigned, bit and 1+3-bit datapoint types, decoding the encoded octets yields the same value, multi-octet values are big-endian, and the octets have the type's width. A type asks for in-APCI (small) encoding only if its value fits in the 6 data bits, and too short input is an error.",
["inputs"],"all values of the seven integer-like datapoint types",
"The only datapoint test samples four floats.",
[DPT,APDU],[("get_bytes / from_bytes pairs and is_small","dp_types.rs")])

p("C28","A datapoint value always reports its own type code",
"However a datapoint value is made (general constructor, named constructor or decoded from octets), its type code has the main number of its datapoint type: 1 bit, 3 1+3-bit control, 5 scaled, 7 unsigned 16-bit, 8 signed 16-bit, 9 float, 12 unsigned 32-bit, 20 octet enumeration.",
["inputs"],"all constructors and decoders of all datapoint types and all inputs",
"No test looks at the codes.",
[DPT],[("code literals in every constructor","dp_types.rs")])

p("C29","Group telegrams encode service, address, length and data exactly",
"An L_Data request encodes as message code 0x11, no additional info, standard-frame control octets with the given 2-bit priority, source 0, the destination's 16-bit form, the APDU length minus one and the APDU. The APDU carries the 4-bit service code (read 0, write 2) that no payload can alter: small data only fills the low six bits, other data follows unchanged.",
["inputs"],"all addresses, priorities and payloads (up to 254 octets, what the length octet can express)",
"One test checks the two octets of a read APCI.",
[EMI,APDU,TPDU],[("masking of small data and length octet","APDU::packet, LDataReqMessage::packet")])

p("C34","Received telegrams decode to exactly their wire fields",
"A cEMI message yields its message code and, after the announced additional information, all remaining octets as service information. An L_Data indication or confirmation yields source and destination from octets 2-5, the flags from their control bits (frame type 7, repetition 5, system broadcast 4, ack request 1), for a confirmation the negated error bit 0, for an indication the 4-bit service code and, with length octet above 1, exactly the announced data octets, otherwise the low six bits. Every complete telegram is accepted.",
["inputs"],"all service octets of all lengths",
"One test decodes one indication and looks at the length of its value.",
[EMI],[("field extraction","CEMI::from_packet, LDataInd::from_cemi, LDataCon::from_cemi")])

p("C30","Two-octet floats decode to the value the standard defines",
"For every pair of octets the two-octet float decoder yields 0.01 * M * 2^E with the two's-complement mantissa M and the unsigned exponent E (up to the rounding of 32-bit arithmetic), and encoding any value from -671088.64 to 670433.28 and decoding it returns a value within half a step of the smallest exponent that can hold it.",
["inputs"],"all octet pairs and all floats",
"Four samples.",[DPT],[("bytes_to_float / calimero_float_to_bytes","dp_types.rs")])

p("C31","Percentages survive the scaled encoding",
"For every percentage from 0 to 100 the scaled datapoint type returns, after encoding (and after a trip over the wire), a percentage within half a step (100/254/2 points) of the original.",
["inputs"],"all floats in 0..=100","No test.",[DPT],[("scaling / get_value","dp_types.rs")])

p("C35","Datagrams are received whole",
"Every receive of the library (session task, connect handshake, search, connection status, disconnect of the monitor) offers the socket a buffer of at least 512 octets, the size KNXnet/IP frames keep to, so that no frame is cut off by the receiving side: a telegram with many data octets or additional information, or a search response with a long service list, is decoded like a short one and does not end the session.",
["inputs","histories"],"all frame lengths up to 512 octets, at every receive",
"Tests send frames far below the size of the buffer.",[UDP,MON],[("receive buffers","handle_recv_from_knx_device, try_connection, get_connectionstate, search, UdpMonitorTransport::disconnect")])

p("C32","The session task tries on until it is told to stop",
"The background task of client and monitor ends only after a disconnect response (or when nobody can receive its telegrams any more), never because of an error, a refusal, silence, or any other datagram. While it has no session every wait is bounded, and the time spent in pauses and run-out time limits between one connect request and the next is at most two minutes, however many attempts failed before, so that a device that comes back is connected again.",
["histories","fault_sequences"],"all fault histories of any length",
"A test cannot show that no history makes the task give up.",[UDP,MON],[("retry loop and end of the task","try_connection, connect, the tasks spawned by both connect operations")])

p("C33","A group request is answered only by later telegrams",
"The value a group read returns and the confirmation that ends a group write are telegrams the session delivered after the operation got its turn: whatever waits in the telegram queue at that time (values of the same address sent earlier, late confirmations of earlier requests) is dropped before the request is sent and is never taken as the answer.",
["histories","schedules"],"all traffic and all operations before the request","Needs foreign traffic before the request; no test runs a group operation.",[UDP],[("queue emptied before the request","UdpClient::read_group_address_value, write_group_address_value")])

p("C36","Listeners learn of every established session",
"Whenever the monitor has established a session, each listener registered with add_on_connect that is still open gets exactly one notification, after the session is stored and before its telegrams are read; no notification is sent without a session. Listeners that are open stay registered, also one whose channel is full and one that registers while the others are told; listeners that are closed are dropped; no listener makes the session task wait. add_on_connect adds the listener to those registered and keeps the others that are open.",
["histories","schedules"],"all session histories, all outcomes of telling a listener, registrations at every suspension point",
"No test registers a listener.",[MON],[("listener list","UdpMonitor::add_on_connect, session task of UdpMonitorTransport::connect")])

p("C37","Device names survive",
"Every friendly name of at most 30 ISO 8859-1 characters can be put into a device information block: the field then holds the characters' octets in order, filled up to 30 octets with NUL. Longer names and names with characters outside ISO 8859-1 are refused. For a block whose field holds a name without NUL followed by nothing but NULs, friendly_name() returns exactly that name, without the padding.",
["inputs"],"all names of 0 to 30 characters, all octets","One name of 6 characters is decoded, none is made.",["src/packets/core.rs"],[("device name","DeviceInformationDIB::new, friendly_name")])

p("C38","Addresses print in their standard notation",
"Formatting an address with {:?} writes it in the notation of the standard: an individual address as area.line.device, a three-level group address as main/middle/sub, a two-level one as main/sub, a free one as the plain number; each part is the decimal number of that part without sign, padding or leading zeros, and nothing else is written. This holds for every address, however it was made (from its parts, from its 16-bit number, from text), so what is printed reads back as the same address.",
["inputs"],"all addresses","No test prints an address.",["src/packets/addresses.rs"],[("printed form","impl fmt::Debug for IndividualAddress, Group3LevelAddress, Group2LevelAddress, Group1LevelAddress")])

p("C39","Service frames have the layout of the standard",
"Every KNXnet/IP service frame and description block has each field at the octets the standard gives it, in both directions. Decoding a frame yields in each field exactly the octets at that field's place (channel, sequence number, status, endpoints, assigned address, feature and value, cEMI, and all fields of the device, service family, IP configuration, address and manufacturer blocks). The request constructors (connect for tunnel and bus monitor, connection state, disconnect and its response, search with multicast or unicast answer, tunnelling request and acknowledge, feature set) yield exactly the octets of that request for the given channel, endpoint, sequence number and data.",
["inputs"],"all field values and all datagrams","Encoding and decoding agree with each other even when both are wrong, and the tests decode one sample of some frames.",["src/packets/core.rs","src/packets/tunneling.rs"],[("layouts","packet and from_packet of the frames and blocks, and their constructors")])

if __name__=="__main__":
    for x in P: print(json.dumps(x))
