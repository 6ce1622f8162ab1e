#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as one readable source).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="application/raw.go";S="application/stream.go";RPC="application/rpc.go";M="application/message.go";E="application/end.go"
D="multiplexer/dialogue.go";DM="multiplexer/dialogue_mgr.go";CB="conn/conn_base.go";CC="conn/conn_client.go";CS="conn/conn_server.go"
p("C01","Raw stream bytes arrive complete, in order, unaltered, on the right stream",
 "The bytes a peer reads from a stream (or from an End, which is stream 1) are exactly the bytes written to the other side of that stream, in write order, without loss, duplication, corruption, reordering or leakage from another stream, whatever the write sizes, read buffer sizes, number of streams and direction. The writer may reuse its buffer as soon as Write returns. A successful Write reports len(b).",
 ["inputs","schedules","histories"],"all write/read size patterns, all interleavings of concurrent streams and directions, all transport segmentations",
 "regression and application tests echo a few small buffers on one or two streams and never vary read-buffer sizes, segmentation or concurrent streams",
 [R,S,D,CB,"packet/packet_data.go"],[("per-stream queue and remainder cache","application/raw.go Read/Write"),("session id routing","multiplexer/dialogue_mgr.go handlePkt"),("ordered channel pipeline","conn/conn_base.go, multiplexer/dialogue.go")],
 ["Stream.Read / Stream.Write on both ends"])
p("C02","Each RPC is executed once and its own response comes back to its caller",
 "A Call that returns success returns the data, custom data and method of the response produced by exactly one execution of the registered handler for that very request, and the handler saw the caller's method, data and custom bytes unaltered; a handler error (with a text) is returned to that caller with it. No request is executed more than once and no response reaches a different call, however many calls are in flight on however many streams and in both directions.",
 ["inputs","schedules","histories"],"all payloads, all numbers and interleavings of concurrent bidirectional calls on all streams",
 "tests call a handful of echo RPCs sequentially with fixed short payloads and never check custom data, method or at-most-once execution",
 [RPC,S,"application/types.go","packet/packet_data.go"],[("packet-id keyed sync hub","application/rpc.go Call"),("handler dispatch and response write","application/stream.go doRPC")],
 ["Call return value","handler invocation"])
p("C03","RPC requests are dispatched to the handler the rules select",
 "A request on a stream is served by the hijacker if one is set and its pattern/match rule selects the method, otherwise by the handler most recently registered for that exact method on that stream, otherwise the caller gets a 'no such rpc' error. Registrations on one stream or side never serve requests of another, and a failed or unrelated registration does not disturb existing ones.",
 ["inputs","histories"],"all method names, hijack patterns, match settings, registration orders and streams",
 "tests register one or two ASCII method names and one hijack; no combination of pattern, negated match, re-registration and several streams is exercised",
 [RPC,S,"options/hijack_options.go"],[("lookup order hijack, local table, error","application/stream.go handleInRequestPacket"),("registration table","application/rpc.go Register/Hijack")],
 ["Call return value","which handler ran"])
p("C04","RPC timeout, deadline and cancellation end the call and reach the handler",
 "A Call with a timeout or a context returns with a timeout/context error no later than the deadline (plus timer granularity) if no response arrived, and with the response if it arrived earlier; the handler's context carries the earliest deadline the caller set and is cancelled when the caller cancels. A late response is dropped: it never completes another call, and later calls on the stream work normally.",
 ["inputs","schedules","histories"],"all combinations of timeout, context deadline, cancellation instant and handler duration, including races between response and expiry",
 "no existing test uses a timeout, deadline or cancel on an RPC",
 [RPC,S,"options/call_options.go"],[("sync with timeout and ctx select","application/rpc.go Call"),("deadline shipped in the request packet; cancel packet","application/rpc.go, application/stream.go handleInRequestPacket/handleInRequestCancelPacket")],
 ["Call return time and error","handler ctx"])
p("C05","CallAsync completes exactly once with its own result",
 "Every CallAsync that returned no error delivers its Call on the Done channel exactly once, carrying either the response of that request or an error (handler error, timeout, context end or stream end), never both or neither and never that of another call.",
 ["inputs","schedules","histories","fault_sequences"],"all mixes of concurrent async calls, timeouts, cancellations, closes and connection losses",
 "the only async test waits for one completion and does not look at its contents",
 [RPC,S],[("sync callback","application/rpc.go CallAsync")],["Call.Done channel"])
p("C06","Publish succeeds only after the receiver acknowledges; each message once, FIFO",
 "Publish returns nil only after the peer's Receive returned that message and its Done was called, and returns the text given to Error if the receiver rejected it; otherwise it returns at its timeout/context end with an error. Every message whose Publish was acknowledged was received exactly once with the same data, topic and custom bytes, and messages published one after another on a stream are received in that order, also when the receiver is slow or its Receives end with their contexts, which takes no message.",
 ["inputs","schedules","histories"],"all payloads, topics, ack policies (done, error, never, late), publisher concurrency and receiver speeds",
 "tests publish short identical messages and acknowledge all; they check neither order, nor topic/custom, nor rejection, nor the relation between Done and Publish returning",
 [M,S,"packet/packet_data.go"],[("message ack sync","application/message.go Publish/ackMessage"),("bounded message queue","application/stream.go handleInMessagePacket")],
 ["Publish return","Receive","Message.Done/Error"])
p("C07","PublishAsync completes exactly once; AtMostOnce never waits",
 "Every at-least-once PublishAsync that returned no error delivers its Publish on Done exactly once, with a nil error only if the receiver acknowledged that message, otherwise with an error. AtMostOnce publishes return without waiting for an acknowledgement, and are received at most once, in order, unaltered.",
 ["inputs","schedules","histories","fault_sequences"],"all mixes of async publishes, ack policies, timeouts, closes and connection losses",
 "tests only count completions of acknowledged async publishes",
 [M,S],[("sync callback","application/message.go PublishAsync"),("cnss branch","application/message.go Publish")],["Publish.Done channel","Receive"])
p("C08","Opening and accepting streams pair up one to one and agree on identity",
 "Each successful OpenStream is matched by exactly one accepted stream at the peer (AcceptStream, Accept or the accept callback) and vice versa; both sides agree on the stream ID and peer name and both report the opener's meta, and IDs of simultaneously live streams on an End are distinct and not 1. ListStreams on either side contains exactly the live streams including the default one.",
 ["schedules","inputs","histories"],"all numbers, orders and interleavings of concurrent opens from both sides with all meta/peer values",
 "tests open streams one at a time from one side with fixed meta",
 [E,DM,D,"packet/packet_sess.go","pkg/id/id.go"],[("session/session-ack negotiation","multiplexer/dialogue.go handleInSessionPacket/handleInSessionAckPacket"),("dialogue tables","multiplexer/dialogue_mgr.go")],
 ["OpenStream, AcceptStream, ListStreams, Stream.StreamID/Meta/Peer"])
p("C09","Nothing sent right after a stream or End comes up is lost",
 "From the moment OpenStream, AcceptStream or End construction returns on one side, data, calls, messages and stream opens issued there reach the peer even if the peer's own open/accept/construction has not returned yet.",
 ["schedules"],"all orders in which the two sides finish their negotiation relative to the first traffic",
 "tests always pause or synchronise between opening a stream and using it",
 [DM,D,E,CC,CS],[("negotiating table consulted for early packets","multiplexer/dialogue_mgr.go handlePkt"),("handshake order","conn/conn_client.go connect, conn/conn_server.go handleInConnPacket")],
 ["first Read/Receive/handler invocation on the other side"])
p("C10","Closing a stream delivers what was written first, then end of stream",
 "After one side writes and closes a stream, the peer can read every byte written before the close and then gets io.EOF, and its Receive returns buffered messages and then io.EOF; operations on the closed stream fail on both sides within the close timeout. Both sides drop the stream from ListStreams, and Close may be called repeatedly, concurrently and from both sides at once.",
 ["schedules","histories"],"all interleavings of writes, closes from either or both sides and reads, at all buffer fill levels",
 "tests close streams only when idle and check only the returned error",
 [S,R,D,DM],[("4-way dismiss handshake","multiplexer/dialogue.go Close/handleInDismissPacket"),("stream teardown","application/stream.go fini")],
 ["Read/Receive results after close","ListStreams"])
p("C11","No operation stays blocked after an End closes or its connection dies",
 "When an End is closed by either side or the underlying connection breaks, closes or, seen from the server side, is silent past the heartbeat limit, every blocked or later operation on that End and its streams (Read, Write, Call, async completions, Publish, Receive, OpenStream, AcceptStream, Register, Close) returns an error in bounded time, without panicking the process. Close itself returns in bounded time.",
 ["schedules","fault_sequences","crash_points"],"all instants of close or connection loss relative to all pending operations, at all buffer fill levels",
 "tests close idle Ends; the chaos test only checks reconnection",
 [S,R,RPC,M,E,D,DM,CB,CC,CS],[("layered teardown","conn fini -> dialogueMgr.fini -> dialogue.fini -> stream.fini"),("sync hub close","application/stream.go fini")],
 ["return of every public operation","process survival"])
p("C12","Read and write deadlines behave as net.Conn promises",
 "A read or write blocked when its deadline passes, or issued after it and unable to finish at once, returns os.ErrDeadlineExceeded (buffered data may still be read and free buffer space still be written); an operation never fails with that error before its current deadline, and setting a new deadline, past, future or zero, takes effect for pending and future operations and on that stream only. No data is lost by a read that timed out.",
 ["inputs","schedules","histories"],"all sequences of deadline changes interleaved with reads, writes and arrivals",
 "application tests set one deadline once per direction",
 [R,S],[("deadline sync and waiter list","application/raw.go setReadDeadline/setWriteDeadline")],["Read/Write return time and error"])
p("C13","Packets survive encode/decode unchanged on the documented wire format",
 "For every packet type and every field value, decoding the encoding, from a byte slice or from any segmentation of a reader, yields the same packet and consumes exactly its bytes, and the encoding follows the published layout (14-byte big-endian header: version, type, packet id, payload length).",
 ["inputs"],"all packet types, field values, payload sizes and read segmentations",
 "one unit test encodes a single packet",
 ["packet/packet.go","packet/packet_conn.go","packet/packet_sess.go","packet/packet_data.go","packet/decode.go","packet/factory.go"],[("Encode/Decode/DecodeFromReader pairs","packet/*.go")],
 ["packet.Encode, packet.Decode, packet.DecodeFromReader, EncodeToWriter"])
p("C14","Decoding arbitrary bytes never panics and reports malformed input",
 "Whatever bytes arrive, both decoders return a packet or an error without panicking; truncated input, unknown types, length fields too short for the type and bodies that are not the JSON their type calls for are reported as errors, and Decode never reads beyond the packet's stated length.",
 ["inputs"],"all byte strings, in particular mutations of valid packets",
 "no test feeds malformed bytes",
 ["packet/decode.go","packet/packet_conn.go","packet/packet_sess.go","packet/packet_data.go"],[("length checks before slicing","packet/*.go Decode/DecodeFromReader")],
 ["decoder return values, process survival"])
p("C15","The connection handshake makes both sides agree on client ID and meta",
 "After construction succeeds both Ends report the same non-zero client ID and the client's meta; the ID is the one the server delegate returned for the client's wanted ID and meta, or a fresh unique one if it returned 0. If the delegate refuses (GetClientID or ConnOnline error), client construction fails with that error text and no End results on the server; a peer that never answers makes construction fail within its timeout.",
 ["inputs","configurations","fault_sequences"],"all metas, wanted IDs, delegate answers, simultaneous clients and stalled or closed peers",
 "tests connect with default options and compare the meta once; no test refuses a client or stalls the handshake",
 [CC,CS,"packet/packet_conn.go","client/end.go","server/end.go"],[("conn/conn-ack exchange","conn/conn_server.go handleInConnPacket, conn/conn_client.go connect")],
 ["End.ClientID, End.Meta, constructor errors, delegate calls"])
p("C16","Delegate notifications mirror the real lifecycle, each exactly once",
 "The server delegate sees ConnOnline exactly once per accepted connection, before the server End is returned, and ConnOffline exactly once after that connection ended by close or loss, never for a refused one; the accepting side's delegate sees exactly one DialogueOnline and, after the stream or its connection ends, one DialogueOffline per stream, with the right IDs and meta. The client delegate sees ConnOffline exactly once, RemoteRegistration is reported once per peer registration, and the stream accept/closed callbacks fire exactly once per accepted stream.",
 ["histories","fault_sequences","schedules"],"all sequences of connects, refusals, opens, closes and losses",
 "tests do not install counting delegates on both sides under failure",
 [CC,CS,D,DM,E,"delegate/delegate.go"],[("online flag at ack, offline at handlePkt end","conn/conn_server.go, multiplexer/dialogue.go")],
 ["delegate and callback invocations"])
p("C17","Heartbeats keep live connections up and detect dead peers",
 "An idle healthy connection stays up indefinitely, with the client sending heartbeats at the negotiated interval and the server answering and reporting each one; if the server hears no heartbeat for twice the interval it closes that connection and its delegate learns of it. Ordinary traffic or its absence does not change this.",
 ["fault_sequences","histories"],"all idle lengths, silent-peer instants and traffic patterns",
 "tests finish long before the first 20 s heartbeat",
 [CC,CS],[("client tick and server watchdog","conn/conn_client.go sendHeartbeat, conn/conn_server.go handleInHeartbeatPacket/waitHBTimeout")],
 ["wire trace, delegate Heartbeat/ConnOffline, End liveness"])
p("C18","A retry client reconnects and restores its service until it is closed",
 "After any connection loss or failed redial, a retry End keeps redialling, and once the peer is reachable again new calls, messages, raw data and streams, synchronous or not, work in both directions under the identity and deadlines of the new connection, a Receive, AcceptStream or Read which was waiting goes on waiting when the first redial succeeds, every method registered and any hijack set before the loss serves the peer again, and the delegate gets one EndReOnline per reconnection and hears of connections, peer registrations and streams as before. After Close it never dials again and leaves no connection open.",
 ["fault_sequences","histories","crash_points"],"all sequences of connection losses, dial failures, registrations and closes, including a close during reconnection",
 "the chaos test kills one connection through iptables-like means (linux only) and checks only that a call works afterwards",
 ["client/end_retry.go"],[("reinit under retry lock, remembered rpcs and hijack","client/end_retry.go reinit/register/Hijack")],
 ["dialer calls, calls served after reconnection, delegate EndReOnline"])
p("C19","Remote-method waiting and checking follow actual peer registrations",
 "With WaitRemoteRPCs, End construction returns only after the peer registered all the named methods, and does return once it has, however registration and construction interleave. With RemoteRPCCheck (in any of the options given) a Call to a method the peer has not registered fails at once with the unregistered error, one it has registered goes through, and the stream stays fully usable either way; local methods given at construction are callable by the peer afterwards.",
 ["schedules","configurations","histories"],"all interleavings of registrations and construction, all method sets",
 "tests register everything from one order with generous pauses",
 [E,S,RPC],[("registration sync with sub ids","application/end.go NewEnd, application/stream.go handleInRegisterPacket"),("check before call","application/rpc.go Call")],
 ["construction return, Call errors"])
p("C20","Identifier factories never hand out the same identifier twice",
 "Identifiers drawn from one factory are pairwise distinct under any concurrency; even-mode factories yield only even and odd-mode only odd identifiers, so the two ends of a connection never draw the same one; unique mode never yields a reserved or still-held identifier and reuses one only after it was released.",
 ["schedules","histories"],"all numbers of concurrent drawers and reserve/release sequences",
 "no test covers the id package",
 ["pkg/id/id.go","pkg/id/factory.go"],[("counter stepping by two from an aligned random start","pkg/id/id.go")],["IDCounter.GetID/ReserveID/DelID"])
p("C21","Streams are isolated: what happens on one does not disturb the others",
 "Closing, failing, timing out, expiring deadlines or erroring on one stream leaves calls, messages, raw data, deadlines, timeouts and registrations on every other stream of the End, and on every other End of the process (also one sharing its timer option), working as if nothing had happened.",
 ["histories","schedules","fault_sequences"],"all sequences of per-stream lifecycle events interleaved with activity on sibling streams and Ends",
 "tests use streams one at a time",
 [S,E,D,DM],[("per-stream sync hub on a shared timer","application/stream.go newStream/fini"),("dialogue tables","multiplexer/dialogue_mgr.go")],
 ["results of operations on sibling streams"])
p("C22","A misbehaving peer cannot crash the process or affect other connections",
 "Whatever bytes or well-formed packets in whatever order a peer sends on one connection, before, during or after the handshake, the process does not panic, other connections of the same server keep working, and that connection's resources are released once it ends.",
 ["inputs","fault_sequences","histories"],"all packet sequences including garbage, unknown ids, repeated or out-of-state control packets and abrupt closes",
 "tests only use well-behaved peers",
 [CS,CC,DM,D,S,"packet/decode.go"],[("state machine guards","conn/conn_server.go, multiplexer/dialogue.go"),("decoder length checks","packet")],
 ["process survival, operations on a second connection, goroutines left"])
p("C23","Concurrent use of the API is free of data races",
 "Ends and streams may be used from many goroutines at once (calls, messages, raw IO, opens, registrations, deadline changes and close) without data races or unsynchronised map access inside the library.",
 ["schedules"],"all concurrent API usage patterns",
 "the baseline runs tests without the race detector and mostly sequentially",
 [S,R,RPC,M,E,D,DM,CB,CC,CS,"client/end_retry.go"],[("mutexes per layer","application, multiplexer, conn")],
 ["Go race detector reports and runtime fatal errors"])
p("C24","Closed Ends and streams leave nothing behind",
 "After an End is closed by its application or fails to construct, all goroutines and timers it started end and its network connection is closed within bounded time; when it is closed by the peer or lost instead, all but a timer of its own do so, which goes with its own Close. Closing streams while the End lives likewise releases everything belonging to them.",
 ["histories","fault_sequences"],"all lifecycles: normal close from either or both sides, connection loss, refused or timed-out handshakes, repeated open/close of streams",
 "no test checks for leaked goroutines or sockets",
 [S,E,D,DM,CB,CC,CS,"client/end.go","server/end.go"],[("fini of each layer","conn, multiplexer, application")],
 ["goroutine set after teardown, net.Conn Close calls"])
p("C25","The listener turns each connection into one End; bad ones harm no others",
 "Each connecting client that completes the handshake is returned by AcceptEnd/Accept exactly once, connected to that client and no other; clients that stall, send garbage or disconnect during the handshake yield only errors, each from at most one accept call, which may take up to the handshake timeout. Closing the listener unblocks pending accepts with an error and leaves established Ends working.",
 ["schedules","fault_sequences"],"all numbers and interleavings of good and bad clients and of concurrent AcceptEnd callers",
 "tests accept one client",
 ["server/server.go","server/end.go",CS],[("per-connection handshake goroutine and result channel","server/server.go AcceptEnd")],
 ["AcceptEnd results, Ends' client IDs and traffic"])
p("C26","Sustained load in both directions never stalls a connection",
 "As long as both applications keep reading, receiving and serving, any amount of concurrent raw, RPC and message traffic in both directions on any number of streams keeps making progress on a transport of any speed and buffering.",
 ["schedules","inputs"],"all mixes of simultaneous bulk traffic in both directions, payload sizes, transport buffer sizes and speeds",
 "benchmarks push data one way on an otherwise idle connection",
 [CB,CC,CS,D,S],[("bounded queues between layers","conn/conn_base.go, multiplexer/dialogue.go")],
 ["completion of all operations in bounded virtual time"])
p("C27","Requests and messages go out only on the stream and End they address",
 "A request or message carries the ID of the stream and client it was made on and an identifier no other one made on that End has. Call, CallAsync, Publish and PublishAsync on a stream with another ID or of another client refuse it at once with an error, with nothing executed, received or completed anywhere because of it and no effect on either stream; afterwards it still works on its own stream, or on another stream of the End once re-addressed to it.",
 ["inputs","schedules","histories"],"all mixes of requests and messages made on and given to all streams of several Ends at once",
 "tests only ever use a request or message on the stream that made it",
 [RPC,M,"application/types.go","packet/factory.go"],[("client and stream ID checks","application/rpc.go Call/CallAsync, application/message.go Publish/PublishAsync"),("packet ids shared by all streams of an End","packet/factory.go")],
 ["results of Call, CallAsync, Publish, PublishAsync; handlers and Receive on all streams"])
p("C28","Standard protocols run unchanged over streams and Ends as over net.Conn",
 "Streams serve as net.Conn and Ends as net.Listener for code that knows nothing of geminio: HTTP with keep-alive, TLS, net/rpc, bufio protocols and io.Copy relays over them complete every exchange with the data intact, see the end of a stream as io.EOF behind all data, and work after read deadlines that were set to interrupt a read and cleared again. LocalAddr, RemoteAddr and Addr are those of the connection underneath.",
 ["inputs","schedules","histories"],"all standard protocols' patterns of reads, writes, deadlines and closes, message sizes and numbers of connections (up to 32 unread packets per direction)",
 "tests use Read and Write in strict alternation with fixed sizes; no protocol implementation runs over a stream",
 [R,S,E,"client/end.go","server/end.go"],[("net.Conn methods","application/raw.go"),("net.Listener methods","application/end.go Accept/Addr/Close")],
 ["results of the protocols' operations"])
p("C29","The connection and multiplexer layers work on their own",
 "Used directly, as in conn/example and multiplexer/example: client and server Conn agree on client ID and meta and hand every data packet written on one side (those before its Close included) to the other side's Read or ChannelRead once, in each writer's order and unaltered. Dialogue managers pair each opened dialogue with exactly one accepted (by channel or function) that agrees on ID, meta and peer; packets written to a dialogue come out of its counterpart only, once, in order, those before its close included, then io.EOF; live dialogues are listed and found by ID, ended ones are not; each end of a dialogue while its manager lives is reported exactly once, on both sides, and never more than once later. After Close of a dialogue, manager or Conn, or the transport's loss, every call returns in bounded time, Read and Write with io.EOF.",
 ["inputs","schedules","fault timings","histories"],"all mixes of packet types, sizes and dialogues opened, written and closed from both sides at once, buffers, timers, ways of accepting and reporting, and endings",
 "the layers' own tests pass a few packets one way in a fixed order and never close anything while it is in use",
 [CB,CC,CS,D,DM],[("packet queues and their closing","conn/conn_base.go writePkt/readPkt, fini"),("dialogue handshake, hand-over and dismiss","multiplexer/dialogue.go"),("dialogue table and reports","multiplexer/dialogue_mgr.go")],
 ["results of Read, Write, ChannelRead, OpenDialogue, AcceptDialogue, ClosedDialogue, ListDialogues, GetDialogue"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
