#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the text stays reviewable)."""
import json
S='source/postcard-rpc/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={'files':[S+f for f in files],'mechanism':[{'name':n,'where':S+w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':S+w} for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=hook
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
HOOK='cfg(vp_hooks): the client\'s sequence counter and key-length cell become scheduling points'
H='host_client/mod.rs'; U='host_client/util.rs'
p('C01','A call returns only the answer to that very call',
 'Whatever frames arrive and in whatever order, a request made through a host client (or any clone of it) that completes successfully returns exactly the payload of a frame that carried that request\'s own sequence number and that endpoint\'s response key. If the frame that carried its sequence number was an error reply, the call returns that error value; a reply whose payload cannot be decoded gives a decode error. Duplicated, reordered, stray, malformed or late replies, and calls that were abandoned by their caller, never change what any other call returns.',
 ['schedules','histories','inputs'],'all interleavings (to a preemption bound) of concurrent calls from clones with a server that answers in any order, duplicates, injects strays/malformed frames, and callers that abandon calls at any await point',
 'The existing tests run one call at a time over an honest in-process server on one tokio scheduler; they never reorder, duplicate or cross replies, and never preempt inside a call.',
 [H,U],[('waiters keyed by (sequence number, response key) and (sequence number, error key)',H),('input worker hands a frame to the waiter of its header',U)],
 [('wait map','calls waiting for a reply, by header',H)],['results of HostClient::send_resp / send_resp_raw, bytes on WireTx/WireRx'],HOOK)
p('C02','No reply is lost: an answered call completes',
 'Once a request\'s frame is on the wire, a well-formed matching reply arriving at any later moment - even before the sending call has been polled again - completes that call with that reply. A call can only stay pending while no matching reply has been delivered and the connection is open. Abandoned calls, unrelated traffic and full queues never make another call miss its reply or block forever.',
 ['schedules','histories'],'all interleavings (to a preemption bound) of callers, both I/O workers and a server that may answer immediately, with outgoing queue depths down to 1 and abandonment of neighbouring calls at every await point',
 'Lost wake-ups and register-after-send races need one particular interleaving; the tests use a current-thread runtime where polls never overlap.',
 [H,U],[('waiter is registered before the request is queued',H),('input worker wakes the waiter',U)],None,['completion of HostClient::send_resp futures'],HOOK)
p('C03','Outgoing frames reach the wire exactly once, whole and in order',
 'Every request or topic message accepted from a caller appears on the wire exactly once, as one frame whose header carries the right key and sequence number followed by the exact serialized payload, unless the connection closes or the caller abandons the operation first. Messages issued one after another by the same caller appear in that order. When the outgoing queue is full the caller waits; nothing is dropped, duplicated or merged.',
 ['schedules','histories'],'all interleavings of up to 3 concurrent producers with queue depths 1..3, wire sends that stall, and abandonment',
 'Tests never fill the outgoing queue or have more than one producer.',
 [H,U],[('bounded outgoing queue drained by one output worker',U)],None,['frames given to WireTx::send'],HOOK)
p('C04','Concurrent requests never share a sequence number; configured width is used',
 'Any two requests issued through clones of the same client while fewer than one full cycle of sequence numbers has passed carry different sequence numbers on the wire, from any mix of tasks and threads. The sequence number on the wire uses the width (1, 2 or 4 bytes) the client was configured with, truncating the running counter, and replies of that width are matched.',
 ['schedules','configurations'],'all interleavings of concurrent callers at the granularity of the shared counter\'s accesses, for each configured width, and every counter value up to and past the 8- and 16-bit wrap points',
 'One caller at a time, always with the 2-byte setting whose effect is never inspected on the wire; overlap on the counter cannot be provoked.',
 [H,'header.rs'],[('atomic fetch-and-add counter',H),('sequence number resize',"header.rs")],[('sequence counter','next request number',H)],['headers on the wire'],HOOK)
p('C05','Key length is negotiated: full length first, then what the server uses',
 'A fresh client sends 8-byte keys; after a call has returned with an endpoint reply (success or error) whose key has N bytes, requests and topic messages started afterwards through any clone use N-byte keys that are the documented reduction of the full key; topic traffic does not change the length. Replies are matched correctly whichever of the four lengths they use, including for calls already in flight while the length changes. Should overlapping calls be answered with different lengths, the length used is that of one of the replies received.',
 ['schedules','histories','configurations'],'all interleavings of two clones\' calls and publishes with servers answering at every sequence of key lengths 1/2/4/8',
 'Tests only ever see one server key length per run and do not interleave calls with the switch.',
 [H,'header.rs'],[('shared key-length cell updated from replies',H),('key shrinking and mixed-length key comparison','header.rs')],[('current key length','length used for outgoing keys',H)],['headers on the wire','results of calls'],HOOK)
p('C06','Closing ends everything, for every clone, and nothing hangs',
 'After the client is closed - explicitly, because sending or receiving on the wire failed, or because every clone was dropped - both background workers terminate, no operation on any clone stays pending (a pending call ends with the closed error unless its reply had arrived), every call, publish and subscribe made once the workers have terminated ends with the closed error, waiting-for-close completes, and every subscription yields what it had buffered and then ends. Until one of those events occurs the client reports itself open and none of these happen.',
 ['schedules','fault_sequences','crash_points'],'a close, wire-send failure, wire-receive failure or drop of all clones injected at every scheduling point of a mixed workload (calls, publishes with a full queue, subscribes, subscription reads)',
 'Tests close once, at one quiet moment; the property is about every moment.',
 [H,U],[('shared stop signal raced against every operation and both workers',U),('subscription purge and stopped flag on worker exit',U)],[('stop signal','permanent closed state',U)],['results of every HostClient operation, completion of spawned workers'],HOOK)
p('C07','Subscribers see their topic in order; loss only by overflow and is bounded',
 'A subscriber receives exactly the messages of its topic that arrived after it subscribed, in arrival order, none duplicated and none belonging to another topic or to a call. An exclusive subscriber may miss a message only if its queue was full when the message arrived and stayed full for the configured timeout; a shared subscriber only by falling behind its buffer, in which case it is told the exact number of missed messages and then continues with the oldest retained one. A payload that cannot be decoded is skipped without affecting its neighbours.',
 ['schedules','histories','configurations'],'all interleavings of an arrival stream over two topics plus replies with readers of exclusive and shared subscriptions of depth 1..3 that read, pause, drop and resubscribe, with zero and non-zero full-queue timeout',
 'Tests deliver a couple of messages to an idle reader; they never overflow a queue, mix subscription kinds on one topic, or race arrival with reading.',
 [U,H],[('input worker fan-out to exclusive and broadcast lists',U),('bounded channels',H)],None,['Subscription/MultiSubscription::recv results'],HOOK)
p('C08','Exclusive, replacing and shared subscriptions behave as documented',
 'At any time a topic has at most one live exclusive subscription: a second exclusive subscribe is refused exactly while an earlier one is alive and succeeds as soon as it was dropped, while the replacing kind of subscribe always succeeds and ends the previous one. Any number of shared subscriptions may coexist with each other and with an exclusive one, each receiving every message, and dropping or adding one never disturbs the others or other topics.',
 ['histories','schedules'],'all sequences of subscribe (three kinds, typed and raw, two topics), drop, deliver and read operations up to a depth, plus interleaved subscribers, against a reference model',
 'Tests exercise single hand-picked orders.',
 [H,U],[('exclusive and broadcast lists under one lock; liveness of the old receiver decides',H),('dead entries removed on failed delivery',U)],[('subscription lists','live subscriptions by key',U)],['subscribe results, recv results'],HOOK)
p('C09','Frame headers round-trip and malformed bytes are rejected without panic',
 'Every header (any key of 1, 2, 4 or 8 bytes, any sequence number of 1, 2 or 4 bytes) encodes to one documented byte string, identically by every encoder, and decodes back to the same header with exactly the bytes after it as payload. Every byte string either decodes to a header whose encoding is its prefix or is rejected; encoding into a buffer succeeds exactly when the buffer is large enough; nothing panics or reads past the end.',
 ['inputs'],'every value of 1- and 2-byte keys and sequence numbers, every byte value at each position of longer ones, every discriminant byte, every truncation, every buffer size',
 'Tests check a handful of fixed headers.',
 ['header.rs'],[('hand-written bit-packed header codec','header.rs'),('write_to_vec / write_to_slice / take_from_slice','header.rs')],None,['VarHeader encode/decode'])
p('C10','Key and sequence reduction and comparison are consistent at every width',
 'Reducing a key from any length to any shorter length gives the documented folding, independent of the path of intermediate lengths, and never lengthens a key; converting between the fixed-length key types agrees with it. Two keys of different lengths compare equal exactly when the longer one reduces to the shorter one, symmetrically. Sequence-number resizing keeps the low bytes and zero-extends; sequence numbers compare by their numeric value, whatever their widths.',
 ['inputs'],'all pairs of lengths, all byte values at each position over several backgrounds, all 2-byte values, all resize paths',
 'Tests check a few constants and only one folding path.',
 ['header.rs','lib.rs'],[('XOR folding of keys','lib.rs'),('VarKey comparison / shrink_to / VarSeq resize','header.rs')],None,['Key1/Key2/Key4/Key conversions, VarKey and VarSeq operations'])
p('C11','The server\'s key length is the smallest that keeps all messages distinguishable',
 'The computed key length is the smallest of 1, 2, 4 and 8 bytes at which no two keys in any of the given lists coincide after reduction, and identical full keys are refused. A generated dispatcher uses a length at which every request and incoming topic it can receive, including the built-in ones, are pairwise distinguishable, and likewise every reply, outgoing topic and the error reply it can send.',
 ['inputs','configurations','programs'],'all key-list shapes up to 3 lists of up to 3 keys over an alphabet of keys whose pairs first separate at each of the four lengths; dispatcher definitions whose keys collide at chosen lengths within and across lists',
 'Tests cover one list shape with two keys, and one dispatcher.',
 ['server/mod.rs','server/dispatch_macro.rs'],[('brute-force pairwise collision scan','server/mod.rs'),('per-direction key lists in the dispatcher','server/dispatch_macro.rs')],None,['min_key_needed result, Dispatch::min_key_len, observed replies'])
p('C12','The server answers every request exactly once, from the right handler',
 'For every frame a client can send, the dispatcher runs at most the one handler registered for that key with the decoded payload and the original header. A request gets exactly one reply carrying its sequence number unchanged (value and width): the handler\'s response under that endpoint\'s response key, or the error reply naming the reason (unknown key, key too short, undecodable payload, could not spawn); incoming topic messages, malformed headers and undecodable topic payloads produce no reply. Keys are compared at the server\'s own key length, so keys of any length at least that long select the same handler.',
 ['inputs','histories','configurations'],'all frames over (every known and unknown key) x (4 key lengths) x (3 sequence widths at boundary values) x (payload classes), for dispatchers of each of the 4 key lengths and for sequences of frames, for immediate, async and spawned handlers',
 'Tests send a few well-formed frames to one dispatcher with 1-byte keys.',
 ['server/dispatch_macro.rs','server/mod.rs','standard_icd.rs'],[('match on the reduced key','server/dispatch_macro.rs'),('reply / error senders copying the sequence number','server/mod.rs')],None,['frames sent by the server, handler invocations'])
p('C13','The server loop survives recoverable faults and stops only on fatal ones',
 'Oversized frames, malformed frames, unspecified receive errors and unspecified send errors never stop the server or affect how any later frame is handled. A closed receive side, or a reply that cannot be sent because sending is closed or timing out, makes the run loop return that very error without handling further frames, and it can be run again afterwards. A handler\'s reply that could not be sent is reported to the client as an error reply, and if that is sent the server carries on.',
 ['fault_sequences','histories'],'all sequences of frames and receive/send faults up to a depth, with every fault kind at every wire operation',
 'No test injects a wire fault into the server.',
 ['server/mod.rs','server/dispatch_macro.rs','server/impls/test_channels.rs'],[('error-kind match in the run loop','server/mod.rs'),('failed reply falls back to an error reply','server/dispatch_macro.rs')],None,['ServerError returned, frames sent'])
p('C14','USB device sends: every frame is whole, terminated and never mixed with another',
 'On the embassy USB server transport, for any number of concurrent senders, every host-visible transfer is one complete frame: its bytes in order, split into maximum-size packets, ended by a short packet (an empty one when the length is a multiple of the packet size). A send that times out, fails or is abandoned part-way never merges its bytes with a later frame, reports its failure, and leaves the transport able to send; a frame that cannot fit the buffer or be serialized is refused and nothing is sent. A send is given the configured time for each USB packet of its frame before it times out. Log sequence numbers and key lengths are as configured.',
 ['schedules','crash_points','fault_sequences','inputs'],'frame lengths around every packet-size multiple, a stall/timeout/disable/abandon at every packet write, all interleavings of two senders, for both supported embassy-usb versions',
 'No test drives this transport at all: it needs a USB peripheral.',
 ['server/impls/embassy_usb_v0_3.rs','server/impls/embassy_usb_v0_4.rs'],[('sender mutex with a pending-frame flag','server/impls/embassy_usb_v0_4.rs'),('chunking and zero-length packet','server/impls/embassy_usb_v0_4.rs')],[('pending frame','a transfer was left unterminated','server/impls/embassy_usb_v0_4.rs')],['packets written to the USB IN endpoint'])
p('C15','USB device receives: frames are delimited correctly whatever their size',
 'On the embassy USB server transport every transfer that fits the receive buffer is delivered as exactly one frame with exactly its bytes; a transfer that does not fit is discarded as a whole with a too-large error, and the next transfer is received intact. Disconnection is reported as closed, and reception resumes after re-enabling.',
 ['inputs','histories','fault_sequences'],'all sequences of transfers with lengths around packet-size multiples and the buffer size, buffer sizes aligned and unaligned to the packet size, endpoint disabled at any packet',
 'No test drives this transport.',
 ['server/impls/embassy_usb_v0_3.rs','server/impls/embassy_usb_v0_4.rs'],[('short packet ends a frame; overflow drains to the next short packet','server/impls/embassy_usb_v0_4.rs')],None,['result of WireRx::receive'])
p('C16','Device log messages always arrive as decodable text',
 'For every log text, buffer size and key length, sending a log message (plain or formatted) on the embassy USB transport never panics; it sends either one frame that decodes to the full text, or for formatted text that does not fit a frame that decodes to a truncation of it, or it reports failure and sends nothing.',
 ['inputs','configurations'],'every text length 0..~400 x every buffer size around the header/varint boundaries x ASCII and multi-byte characters at every alignment x every key length x one or several formatted fragments',
 'No test drives this transport; the length-prefix arithmetic has boundaries at 128 and 16384.',
 ['server/impls/embassy_usb_v0_3.rs','server/impls/embassy_usb_v0_4.rs'],[('reserve a length prefix, format in place, fix up the prefix','server/impls/embassy_usb_v0_4.rs')],None,['log frames written to the USB IN endpoint'])
p('C17','COBS stream framing does not depend on chunking and recovers after errors',
 'Feeding a byte stream to the serial frame accumulator yields the same frames, in order and byte-exact, for every way of splitting the stream into chunks. A corrupt or over-long frame is reported and swallowed up to its terminator, and the next well-formed frame is delivered intact.',
 ['inputs','histories'],'all streams over a small alphabet up to a length, and sequences of valid/corrupt/over-long frames, under every possible chunking, for buffer sizes around the frame sizes',
 'Tests feed whole frames in one or two hand-picked chunkings.',
 ['accumulator.rs'],[('accumulate until a zero byte, decode, return the remainder','accumulator.rs')],[('partial frame buffer','bytes since the last terminator','accumulator.rs')],['CobsAccumulator feed results'])
p('C18','Serial client: every valid frame gets through, line noise does not break it',
 'Over a serial link every outgoing frame is written completely, encoded and zero-terminated, in order, whatever short writes the port makes. Every well-formed frame in the incoming byte stream is delivered to the client exactly once, however the bytes are chunked and however much line noise or how many over-long or corrupt frames precede it. A port failure in either direction closes the client. Requests carry sequence numbers of the width the client was set up with, and error replies under the error path it was set up with, and no others, are taken for errors.',
 ['inputs','histories','fault_sequences','schedules'],'all chunkings of incoming streams of valid frames of every small size, noise and corrupt frames; all short-write patterns; a read/write failure at every operation',
 'No test opens a serial port.',
 ['host_client/serial.rs','accumulator.rs'],[('COBS encode + write_all; accumulator-driven receive loop','host_client/serial.rs')],None,['bytes written to / read from the serial stream, client call results'])
p('C19','USB client transport: frames keep their boundaries and stalls are recovered',
 'Over raw USB each outgoing frame is one transfer, followed by an empty packet exactly when its length is a multiple of the endpoint packet size, and the transport reports it sent only when it was. Each completed incoming transfer is delivered as one frame, in order, with several transfers kept queued; a stalled endpoint is recovered, up to ten consecutive times, after which later transfers are again delivered in order and none twice. A disconnect, cancellation, fault or exhausted recovery closes the client. Requests carry sequence numbers of the width the client was set up with, and error replies under the error path it was set up with, and no others, are taken for errors.',
 ['fault_sequences','histories','inputs'],'all sequences of transfer completions (ok, stall, fault, unknown, disconnected, cancelled) up to a depth; frame lengths around packet-size multiples',
 'No test drives USB.',
 ['host_client/raw_nusb.rs'],[('bulk queues, in-flight refill, stall recovery','host_client/raw_nusb.rs')],None,['transfers submitted to the USB stack, client call results'])
p('C20','Schema discovery gives the complete truth or an error',
 'Asking a connected device for its schema returns a report that lists exactly the device\'s endpoints, topics (with direction) and types, each endpoint and topic resolved to the schema of its actual request, response or message type (keys do not carry the names of types, so equally shaped types may stand for one another). If any of the data was lost, failed to be sent or could not be resolved, an error is returned instead of an incomplete report. The device\'s closing reply states how many types, endpoints and topics it has and how many of those messages it could not send.',
 ['fault_sequences','inputs','programs'],'loss of every subset of report messages up to a size, a send failure at every message, several device definitions; message types of every kind of shape',
 'One test requests one report over a lossless channel.',
 [H,'server/mod.rs','standard_icd.rs'],[('report collection and totals check',H),('schema streaming with totals and error count','server/mod.rs')],None,['result of HostClient::get_schema_report'])
p('C21','The device\'s reported type set is exactly the types its interface uses',
 'The type list a device reports contains every distinct non-primitive type reachable from any endpoint or topic message, through any nesting of structs, tuples, enums, options, sequences and maps, once each and nothing else; merging the lists of endpoints and topics keeps that.',
 ['inputs','programs'],'all message types built from every kind of constructor nested to a depth, compared with an independent traversal, and all overlaps of merged lists',
 'Tests use a few hand-picked types.',
 ['uniques.rs','macros.rs','server/dispatch_macro.rs'],[('const-time type walker and de-duplicating merge','uniques.rs')],None,['DeviceMap / endpoint and topic list contents'])
p('C22','Concurrent server-side senders never corrupt or reorder one another\'s frames',
 'Replies from spawned handlers, topic messages and log messages sent concurrently with the main dispatch loop each reach the client as one whole frame with their own header, exactly once, with per-sender order kept and each log message numbered distinctly. Whatever is sent through a server\'s sender carries the sequence number it was given (value and width) and a key of the length the server was set up to send with. When the server is told to stop, all of them and the run loop end with the closed error instead of hanging.',
 ['schedules','histories','crash_points'],'all interleavings of the run loop, two spawned handlers and an independent publisher/logger over a bounded channel, with a stop at every scheduling point',
 'Tests have one sender active at a time.',
 ['server/mod.rs','server/impls/test_channels.rs','server/dispatch_macro.rs'],[('cloneable sender over a bounded channel with a stop signal','server/impls/test_channels.rs')],None,['frames received from the server channel, results of sends'])
p('C23','WebUSB client transport keeps frame boundaries and closes on failure',
 'In a browser, each outgoing frame is one USB transfer, followed by an empty packet exactly when its length is a multiple of the 64-byte packet size, in order; each successful incoming transfer is delivered as one frame, in order. A stalled, babbling, rejected or disconnected transfer in either direction closes the client and ends every waiting call; nothing else does. The device used is an already paired one of the requested vendor, else the one the user picks. Requests carry sequence numbers of the width the client was set up with, and error replies under the error path it was set up with, and no others, are taken for errors.',
 ['fault_sequences','schedules'],'all sequences of WebUSB promise outcomes, interleaved with callers',
 'It needs a browser; there are no tests.',
 ['host_client/webusb.rs'],[('promise-driven transfer loops','host_client/webusb.rs')],None,['WebUSB transfers'])
p('C24','A device built as firmware and a host built with std understand each other',
 'With one interface declaration compiled into a device (without std) and into a host (with std), at every key length the device may need and every sequence-number width the host may use: each call runs its handler exactly once with the value passed and returns the value that handler returned, or the error the device reports; topic messages in both directions, log messages, ping and schema discovery deliver exactly what was sent, also when several of them are under way at once. Paths, keys and encodings of the built-in endpoints, topics, error and schema messages are identical in both builds.',
 ['schedules','histories','configurations'],'all sequences of operations to a length, all schedules to a delay bound, times key lengths, sequence widths and both builds of the server',
 'Tests never build the crate without std, and exercise client and server together in one configuration only.',
 ['standard_icd.rs','macros.rs','server/mod.rs','server/dispatch_macro.rs','host_client/mod.rs','header.rs'],[('alternative declarations for builds without std','standard_icd.rs')],None,['results of calls, handler runs, subscribed messages'])
p('C25','A dispatcher definition is accepted exactly when it is consistent',
 'A dispatcher definition compiles if, and only if, every endpoint it has a handler for is in its endpoint list with the same path, request type and response type, every incoming topic it has a handler for is in its list of incoming topics, and no two messages the dispatcher can receive, and no two it can send, have the same path and type; the built-in messages and the error reply count as messages. The order and number of list entries and handlers, and the kind of handler, make no difference; entries disabled by their Cfg column count as absent; the same message may be used once in each direction.',
 ['programs','configurations'],'all definitions with up to 3 handlers and 3 list entries in every order, for endpoints and incoming topics; all positions of two coinciding messages in lists of up to 5 and across lists, with the built-in messages, and every pattern of disabled entries',
 'The rules are enforced while compiling: a unit test cannot contain a program that must not compile, and the repository has no compile-fail tests.',
 ['server/dispatch_macro.rs','server/mod.rs','macros.rs','standard_icd.rs'],[('subset checks of handlers against lists','server/dispatch_macro.rs'),('refusal of identical keys per direction','server/mod.rs')],None,['whether a program with the definition builds'])
p('C26','The in-process transport carries frames faithfully; both ends close together',
 'With a client and a server of this crate joined by the channel transport, every call runs its handler once and returns what it returned, or the error the server reports, with sequence numbers of the width the client was set up with; topic and log messages of any length arrive whole, once and in order in both directions, log messages of one server being numbered 0, 1, 2 and so on; a frame that does not fit the server\'s receive buffer is dropped without affecting anything else, and one that just fits is handled. When the server is stopped or dropped, or the client is closed or all its clones are dropped, at whatever point, the other end notices: calls in progress end, the run loop returns the closed error, the client reports being closed, and nothing hangs.',
 ['schedules','crash_points','inputs'],'all frame lengths around the receive buffer size; all schedules to a delay bound of callers, publishers, subscribers and the server over channels of depth 1 and 2, with either side ending at every scheduling point',
 'Tests use this transport on one schedule, with small frames and a large buffer, and never end one side in the middle of a call.',
 ['server/impls/test_channels.rs','host_client/test_channels.rs','server/mod.rs','host_client/mod.rs','host_client/util.rs'],[('channel receive into a bounded buffer, with a stop signal','server/impls/test_channels.rs'),('client built on the other ends of the channels','host_client/test_channels.rs')],None,['results of calls and sends, handler runs, how Server::run ends'],HOOK)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
