#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SRV="radius/src/server.rs"; CLI="radius/src/client.rs"; PKT="radius/src/core/packet.rs"
AVP="radius/src/core/avp.rs"; ATT="radius/src/core/attributes.rs"; COD="radius/src/core/code.rs"
REQ="radius/src/core/request.rs"; GEN="code-generator/src/main.rs"; VSA="radius/src/core/vsa.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))

p("C01","Only authentic requests reach the handler",
 "With authenticity validation on (the default), the server calls the request handler only for a datagram whose code is Access-Request, Status-Server, Accounting-Request, Disconnect-Request or CoA-Request and which, for the last three, carries a request authenticator that verifies under the secret configured for the sender's address. A request of these three kinds that is altered anywhere within its declared length or keyed with another secret, and a datagram with any other code, causes no handler call and no reply; a request of any of the five kinds that the library itself encoded under the right secret passes. The library's request check, which users may call themselves, accepts exactly these requests and nothing at all under an empty secret. With validation switched off, every well-formed datagram reaches the handler, and malformed ones still do not; switching it between two serve calls applies from the next one on.",
 ["inputs","fault_sequences","histories","configurations"],
 "every datagram and every in-flight alteration of it, under every arrival history and both settings of the validation switch",
 "The tests check one Access-Request (whose authenticator is never verified) and no Accounting, CoA or Disconnect request at all; no test alters a datagram in flight.",
 [SRV,PKT,COD],[("request authenticator check before the handler","Packet::is_authentic_request"),("gate in request processing","Server::process_request"),("switch","Server::set_skip_authenticity_validation")],
 observe=["handler invocations","datagrams sent by the server"])

p("C02","Every valid delivered request is handled exactly once",
 "Each datagram the server socket delivers while the server is running that is well formed, authentic and not a repeat of a request still being handled leads to exactly one handler call. Nothing is handled that was not delivered, and one delivery never leads to two handler calls, however arrivals are bunched, reordered or repeated.",
 ["schedules","fault_sequences","histories"],
 "all arrival orders, bursts, duplications and losses, all interleavings of the worker threads and all handler durations",
 "The only server test sends two requests strictly one after the other to an idle server.",
 [SRV],[("receive loop spawning one task per datagram","Server::run_loop"),("per-request processing","Server::process_request")],
 observe=["datagrams delivered to the server socket","handler invocations"])

p("C03","At most one handler in flight per peer address and identifier",
 "For each server and each pair of peer address (IP and port) and packet identifier, at most one handler call is in progress at any moment. A request that arrives while one with the same pair is in progress is dropped without a handler call, whatever its contents, on any number of worker threads.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of concurrently processed duplicates on any number of worker threads, all handler durations, all retransmission times",
 "No test sends a duplicate while its original is being handled, and a test run shows only the interleavings the OS happens to choose.",
 [SRV],[("set of undergoing requests, checked and updated under one lock","Server::process_request")],
 state=[dict(name="undergoing request keys",meaning="pairs of peer and identifier being handled",where="Server")],
 observe=["handler start and end events"])

p("C04","A finished request frees its peer/identifier pair",
 "As soon as a handler call ends - with success, with an error or with a panic - the same peer can have a new request with the same identifier handled. No history of requests, handler failures, shutdowns or restarts of the serve loop leaves a pair blocked once nothing is in progress for it.",
 ["histories","fault_sequences","schedules"],
 "all histories of requests and handler outcomes (success, error, panic), with serve-loop stops in between",
 "The tests never reuse an identifier from the same source port and have no failing or panicking handler.",
 [SRV],[("removal of the key after the handler","Server::process_request")],
 state=[dict(name="undergoing request keys",meaning="must not contain a pair for which no handler is running",where="Server")],
 observe=["handler invocations after earlier ones for the same pair ended"])

p("C05","Requests do not delay or suppress one another",
 "A request that is slow, stuck, failing or panicking in its handler never delays or prevents the handling of a request from another peer, with another identifier, or to another server in the same process. Peers that differ only in port or only in IP address, and identifiers that differ in any bit, are always distinct.",
 ["schedules","histories","fault_sequences"],
 "all mixtures of stuck, slow and fast handlers, all peer and identifier combinations, on one or several worker threads",
 "The tests never have two requests in progress.",
 [SRV],[("one spawned task per datagram","Server::run_loop"),("key made of full peer address and identifier","Server::process_request")],
 observe=["time between delivery and handler start"])

p("C06","No datagram can crash or wedge the server",
 "Whatever bytes arrive - empty, truncated, oversized, random, or well-formed packets with damaged lengths - the library neither panics nor stops serving, and a malformed datagram never reaches the handler. Valid requests that arrive after or between hostile datagrams are served as if those had not been sent.",
 ["inputs","histories","fault_sequences"],
 "all byte strings up to the largest UDP payload, in all orders and interleaved with valid traffic",
 "Five hand-written malformed packets are tried against the decoder; none is sent to a running server.",
 [SRV,PKT,ATT],[("length checks in packet decoding","Packet::decode"),("length checks in attribute decoding","Attributes::decode"),("per-datagram task","Server::run_loop")],
 observe=["panics","handler invocations","service of later requests"])

p("C07","The handler sees exactly the request that was delivered",
 "The request object passed to the handler carries the sender's address and port, the server's own listening address (which the server also reports when asked), and the code, identifier, authenticator and attribute list (types, values and order) of one delivered datagram, up to its declared length. Content never mixes between requests in flight, and octets beyond the declared length are ignored.",
 ["inputs","schedules","histories"],
 "all request contents and senders, with any number of requests in flight and any reuse of the receive buffer",
 "The tests look at two attributes of one request at a time on an idle server.",
 [SRV,PKT,ATT,REQ],[("copy of the received slice per datagram","Server::run_loop"),("packet decoding","Packet::decode"),("request object","Request::new")],
 observe=["request object in the handler versus delivered bytes"])

p("C08","The client sees exactly the response the handler sent",
 "When a client call succeeds, the packet it returns has the code, identifier and attributes (types, order and values as read back through the accessors) that the handler put in the response to that very request. This holds for every response code and attribute set, with any number of exchanges in flight over a network that loses, duplicates, delays and reorders datagrams.",
 ["inputs","schedules","fault_sequences"],
 "all responses, concurrent exchanges and network faults",
 "One response with one attribute is checked over a loss-free loopback.",
 [CLI,PKT,AVP],[("response built from the request","Packet::make_response_packet"),("response encoding","Packet::encode"),("client decoding","Client::send_packet")],
 observe=["result of the client call versus the handler's response"])

p("C09","The client accepts only the authentic answer to its own request",
 "A client call returns a packet only if it arrived from the address the request was sent to and its response authenticator verifies against that request and the shared secret. Forged, corrupted, replayed, misdirected or foreign-keyed responses are never returned as a success.",
 ["inputs","fault_sequences","histories"],
 "all datagrams an attacker or a faulty network can deliver to the client's socket, before, between and after the genuine response",
 "No test delivers anything but the genuine response to a client.",
 [CLI,PKT],[("response verification","Packet::is_authentic_response"),("connected socket","Client::connect"),("acceptance of the response","Client::send_packet")],
 observe=["result of the client call versus datagrams delivered to its socket"])

p("C10","Client deadlines are exact",
 "With a socket timeout, a client call that gets no response ends with the socket-timeout error when the timeout has elapsed since it set about sending the request (waiting for room in the send buffer counts), not before and not appreciably later; a response that arrives in time makes it succeed. Without a timeout the call waits for the response however late it comes.",
 ["schedules","fault_sequences","configurations"],
 "all timeout settings and response delays, including responses arriving just before, at and long after the deadline and send buffers that stay full for part or all of it",
 "One test uses a zero timeout against a slow server; no other delay or timeout is tried, and waiting for long real timeouts is impractical.",
 [CLI],[("timeout around the exchange","Client::send_packet")],
 observe=["simulated time at which the call ends and its result"])

p("C11","Client failures are reported as the failure that happened",
 "If creating, binding or connecting the socket, sending the request or receiving the response fails, the client call ends at once with the error kind documented for that step, carrying the peer address where documented; it never succeeds, panics or hangs. Each call puts at most one datagram on the wire, equal to the encoded request, and never retransmits.",
 ["fault_sequences","inputs"],
 "a failure of any system call at any step of the exchange, for IPv4 and IPv6 servers",
 "No test makes a system call fail.",
 [CLI],[("error mapping per step","Client::send_packet"),("send and receive","Client::request"),("connect","Client::connect")],
 observe=["result of the client call","datagrams sent by its socket"])

p("C12","Concurrent and cancelled client calls do not interfere or leak",
 "Any number of calls on one client may run at once, to the same or different servers, with equal identifiers: each gets its own response or its own failure. A call dropped at any point affects no other call, and when a call has ended or been dropped its socket is closed.",
 ["schedules","histories","fault_sequences"],
 "all sets of concurrent calls, response orders and cancellation points",
 "The tests make one call at a time and never cancel one.",
 [CLI],[("socket per call","Client::send_packet")],
 observe=["results per call","open sockets after each call"])

p("C13","The secret follows the peer and the moment; without one there is silence",
 "Each request is verified, decoded and answered with the secret the provider gives for that request's source address when it is processed, so peers with different secrets never share one and a changed secret applies to the next request. If the provider fails, panics or returns an empty secret, the request is dropped without handler call or reply and other peers are unaffected.",
 ["histories","fault_sequences","configurations"],
 "all assignments of secrets to peers, secret changes between requests, and provider failures at any request",
 "The test provider returns one constant for every peer and never fails.",
 [SRV,PKT],[("secret lookup per request","Server::process_request"),("empty secret check","Server::process_request")],
 observe=["handler invocations, the secret in the request packet, replies"])

p("C14","Shutdown is prompt, clean and resumable",
 "When the shutdown future resolves, the serve call returns success promptly whatever traffic or handlers are pending; after that, and likewise after the serve call's future has been dropped, no datagram is received or handled until serving is started again. Handler calls already in progress run to completion and can still reply, and starting to serve again handles waiting and new requests normally.",
 ["schedules","crash_points","histories"],
 "a shutdown signal, or a dropped serve call, at any instant relative to arrivals, processing and handler progress, repeated any number of times",
 "The tests stop an idle server only.",
 [SRV],[("select between serve loop and trigger","Server::run"),("detached request tasks","Server::run_loop")],
 observe=["result and time of the serve call","handler starts and ends around it"])

p("C15","Socket failures surface; transient conditions do not stop the server",
 "A failure of the server socket's receive operation makes the serve call return that very error instead of hanging, spinning or claiming success. Transient conditions - spurious readiness, interrupted polling, a failing local-address query, a reply that cannot be sent - lose at most the one request they hit, and serving continues; failing to resolve the host or to bind is reported by the listen call, and a listen call that succeeds is bound to the host and port it was given.",
 ["fault_sequences","schedules"],
 "a failure or transient condition at any system call of the serve loop or of a handler's reply",
 "No test makes a system call fail.",
 [SRV],[("error propagation from receive","Server::run_loop"),("bind","Server::listen")],
 observe=["result of the serve and listen calls","service of other requests"])

p("C16","Authenticators, identifiers and salts are fresh and unpredictable",
 "Every newly constructed packet gets an authenticator and, unless one was given, an identifier drawn from the operating system's entropy; tunnel-password salts likewise, with the top bit set. They do not repeat across packets, threads or process restarts, and do not become predictable when clocks stand still, jump or repeat. If no entropy can be had, no packet is made rather than a predictable one.",
 ["schedules","fault_sequences","histories"],
 "all threads and tasks constructing packets, all clock behaviours, and restarts of the process with the same clock and configuration",
 "No test looks at randomness; doing so needs control over the entropy source and the clock.",
 [PKT,AVP],[("random authenticator and identifier","Packet::_new"),("random salt","AVP::from_tunnel_password")],
 observe=["authenticators, identifiers and salts of packets built under controlled entropy"])

p("C17","Secrets and passwords never leak",
 "On every path, including every failure path, the shared secret never appears in a datagram, a log record, standard output or error, an error value or a packet's debug rendering; and a plain-text user or tunnel password never appears in a datagram or a log record made by the library.",
 ["fault_sequences","inputs","histories"],
 "all requests, responses and failures of client and server",
 "No test looks at logs, debug output or raw datagrams for secrets.",
 [PKT,SRV,CLI,AVP],[("redacted debug rendering","impl Debug for Packet"),("password hiding","AVP::from_user_password, AVP::from_tunnel_password"),("log statements","Server::process_request")],
 observe=["datagrams, log records, stdout/stderr, error and debug strings"])

p("C18","Responses are bound to their request and tampering is detected",
 "Every response built from a received request and encoded carries the request's identifier, its correct length, and a response authenticator that an independent RFC 2865 implementation verifies against the request as received. The library's own response check accepts exactly those: it rejects every response altered in any bit in flight, crossed with another request, or checked under another secret.",
 ["inputs","fault_sequences","histories"],
 "all requests, response codes and attribute sets, all single- and multi-bit alterations in flight and all mix-ups between exchanges",
 "One response of RFC 2865's examples is checked as valid; no altered or crossed response is checked as invalid.",
 [PKT],[("response authenticator","Packet::encode"),("verification","Packet::is_authentic_response"),("identifier and authenticator taken from the request","Packet::make_response_packet")],
 observe=["response datagrams and verdicts of the response check"])

p("C19","Hidden passwords survive the network and only the right secret opens them",
 "A user password of up to 128 bytes that does not end in a NUL byte added to an Access-Request is hidden on the wire exactly as RFC 2865 section 5.2 specifies, and the server recovers exactly that password when it holds the same secret; a tunnel password added to a packet is hidden with the MD5 chain of RFC 2868 section 3.5 and recovered, with its tag, by whoever holds the secret and that packet's authenticator. A server holding a different secret never recovers the password, over-long passwords are refused, and without a secret (an empty one) no password is hidden or read.",
 ["inputs","histories","fault_sequences"],
 "all passwords, secrets and authenticators, with duplicated and concurrent exchanges",
 "Three passwords under one secret are tried, without a network.",
 [AVP,"radius/src/core/rfc2865.rs","radius/src/core/rfc2868.rs"],[("hiding and recovery","AVP::from_user_password, AVP::encode_user_password, AVP::from_tunnel_password, AVP::encode_tunnel_password")],
 observe=["attribute bytes on the wire","password seen by the handler"])

p("C20","The two crypto back ends are interchangeable",
 "Built with either crypto option, the library behaves identically: the same inputs, entropy, timing and faults lead to the same datagrams byte for byte, the same handler calls and the same results.",
 ["configurations","inputs","histories"],
 "all exchanges and hostile inputs, run against both builds",
 "The same 27 unit tests run on each build separately; nothing compares the two, and the end-to-end test runs on one only.",
 [PKT,AVP],[("duplicated implementations per crypto feature","Packet::encode, Packet::is_authentic_request, Packet::is_authentic_response, AVP::from_*password, AVP::encode_*password")],
 observe=["complete event histories of both builds under one seed"])

p("C21","The receive buffer size is honoured and never splits a packet",
 "A datagram that fits in the receive buffer configured when serving was last started (1500 bytes unless set otherwise) is handled in full, up to the protocol's maximum of 4096 bytes. A packet that does not fit is dropped, never handled in truncated form, and has no effect on the datagrams before or after it.",
 ["configurations","inputs","histories"],
 "all buffer sizes, datagram sizes around them, and orders of large and small datagrams",
 "No test sets the buffer size or sends a datagram near or above it.",
 [SRV,PKT],[("buffer allocation","Server::run_loop, Server::set_buffer_size"),("declared length check","Packet::decode")],
 observe=["handler invocations versus datagrams sent"])

p("C22","The code generator never reports success with incomplete output",
 "If the generator exits successfully, every output file is complete - it covers every attribute and value of its dictionary - and identical to what a fault-free run on the same dictionaries produces, whatever short, interrupted or failing reads and writes it met, whatever order its arguments had, and whatever an earlier or crashed run left behind. If any input is missing, unreadable or malformed or any output could not be written in full, it exits with a failure; short transfers and interruptions alone never make it fail.",
 ["fault_sequences","crash_points"],
 "an I/O fault (error, short transfer, interruption, full disk) at any open, read or write of the run, and any argument order and hash seed",
 "The generator has no tests.",
 [GEN],[("buffered writer per output file","main, generate_*"),("sorting of the dictionary files","main")],
 observe=["exit status and output files of the generator process"])

p("C23","Typed attributes mean the same on both sides and on the wire",
 "For every attribute of every supported dictionary, a value added through its typed function is found by the other side under the same attribute with the same value, first and in full order among repeats, and travels under the type number (and named value number) its dictionary assigns, in the octets the RFCs give its type (numbers in network order, text as UTF-8, the tag in front, prefixes as a reserved octet, a length in bits and the address). This includes vendor-specific values built with the vendor-specific helper types. Deleting an attribute removes exactly the occurrences of that attribute, and an absent one is reported as absent.",
 ["inputs","histories","schedules"],
 "all attributes and values of all dictionaries in all combinations and orders, across concurrent exchanges",
 "Tests exercise about ten of the several hundred attributes, with one value each.",
 ["radius/src/core/rfc2865.rs","radius/src/core/rfc2866.rs","radius/src/core/rfc2868.rs","radius/src/core/rfc2869.rs","radius/src/core/rfc5904.rs","radius/src/core/rfc6572.rs",AVP,ATT,"dicts/dictionary.rfc2865"],
 [("typed accessors","generated rfc modules"),("value encodings","AVP::from_* and AVP::encode_*"),("attribute list","Attributes")],
 observe=["values looked up by the handler and by the client","attribute bytes on the wire"])

p("C24","Packets the protocol cannot carry are refused, never mis-sent",
 "A packet whose attributes do not fit - an attribute value above 253 bytes or a total above 4096 bytes, by any amount - or whose code cannot be sent is refused when encoded, and the client call reports the encoding failure without putting anything on the wire. Every packet that is encoded has a length field equal to its size, of at most 4096 bytes.",
 ["inputs","histories","schedules"],
 "all attribute counts and sizes, including totals around 4096 and around multiples of 65536, from any number of concurrent callers",
 "One test tries attribute sizes 253 and 254; total size and codes are not tested.",
 [PKT,ATT,CLI],[("size check","Packet::marshal_binary"),("attribute size check","Attributes::encode"),("code check","Packet::encode")],
 observe=["result of the client call","datagrams on the wire"])

p("C25","Generated dictionary modules behave like the committed ones",
 "The code generator succeeds on the committed dictionaries, and the modules it makes of them can take the place of the committed ones: the library and programs written against it still compile, and a system built with them sends the same datagrams, gives handlers and callers the same attribute values and the same errors, and accepts and refuses the same values, for every input and history. So every committed module implements what the generator makes of its dictionary, and regenerating the modules changes no behaviour.",
 ["programs","inputs","histories"],
 "every attribute function and named value of every committed dictionary, with every kind of value and of received octets",
 "Nothing in the test suite runs the generator, and the committed modules are tested with about ten of their several hundred functions.",
 [GEN,"scripts/generate-code.sh","dicts/dictionary.rfc2865","radius/src/core/rfc2865.rs"],[("code templates per attribute type","code-generator generate_*_attribute_code"),("named values","generate_values_code"),("dictionary parsing","parse_dict_file")],
 observe=["datagrams, handler invocations and client results of the system built with generated modules, versus those with the committed modules"])

p("C26","Vendor-specific payloads serialise as RFC 2865 prescribes",
 "For every vendor id, vendor type, tag and text that fits, the vendor-specific helper types serialise to the four-byte vendor id, the vendor type, a length covering type, length, tag and text, then the tag and text; and they report that length.",
 ["inputs"],"all vendor ids, types, tags and texts up to 247 bytes",
 "Tests use one value per type.",
 [VSA],[("serialisation","StringVSA::message, TaggedStringVSA::message")],
 observe=["serialised bytes"])

p("C27","Reading a received attribute yields what its octets say, or an error",
 "Reading any attribute of any received packet through its typed accessors - whatever octets the peer put into it, of whatever length - yields exactly the value those octets encode under the attribute's dictionary type, or a decoding error when they encode none. It never panics, never yields another value, and the accessor for all occurrences yields every occurrence in wire order. An attribute the packet does not carry is reported as absent.",
 ["inputs","histories","fault_sequences"],
 "all attribute numbers and all value octets of 0 to 253 bytes, as sent by a hostile or foreign peer or damaged in flight, on the server and on the client side",
 "Each accessor is tried at most once, on a value the library itself encoded; no test reads an attribute that a foreign or hostile peer made.",
 ["radius/src/core/rfc2865.rs","radius/src/core/rfc2868.rs","radius/src/core/rfc2869.rs","radius/src/core/rfc3162.rs","radius/src/core/rfc6911.rs",AVP,ATT,"radius/src/core/tag.rs"],
 [("value decodings","AVP::encode_*"),("typed accessors","lookup_* and lookup_all_* of the rfc modules"),("attribute list","Attributes::lookup, Attributes::lookup_all")],
 observe=["values and errors returned by the accessors in the handler and after a client call","panics"])

p("C28","Serving and calling leave nothing behind",
 "What a server and its clients hold does not grow with the work they have done. Once a request's handling is over - completed, failed, panicked, refused as a duplicate, rejected as inauthentic or malformed - and once a client call has ended or been dropped, the memory and descriptors it used are released: after any number of rounds of the same traffic, from ever new peers, with nothing in progress, no more is held than after the first ones.",
 ["histories","schedules","fault_sequences"],
 "arbitrarily long histories of requests, serve calls and client calls, each ending in any way",
 "Tests make at most a handful of requests and look at results only, never at what is still held afterwards.",
 [SRV,CLI],[("task per request and set of requests in progress","Server::run_loop, Server::process_request"),("socket per call","Client::send_packet")],
 observe=["octets allocated and descriptors open between rounds of traffic"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
assert all(len(x["title"])<=80 for x in P)
print(len(P))
