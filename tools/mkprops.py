#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list is edited here).
import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","A frame that is written and read back is the same frame",
  "Writing a frame emits exactly its command, its header entries in order with backslash, CR, LF and colon escaped in names and values, a blank line, the body and a NUL byte (a nil frame emits one LF), and decoding inverts the escaping. So for every frame with a known command, non-empty header names and a body that either matches its content-length entry or contains no NUL when there is no such entry, reading what was written yields an equal frame and leaves exactly the bytes that followed it.",
  ["inputs"],"every command, every header list (any bytes, duplicates, any length), every body, any bytes following",
  "TestWriter/TestReader use a dozen literal frames; no test composes writer and reader over arbitrary header bytes.",
  ["frame/writer.go","frame/reader.go","frame/encode.go"],[("Writer.Write","frame/writer.go"),("Reader.Read","frame/reader.go"),("replacer tables","frame/encode.go")])
p("C02","The frame reader accepts exactly the well-formed frames and never panics",
  "On any byte stream, reading either returns the frame that the STOMP grammar assigns to the next bytes and consumes exactly those bytes, or returns nil for a lone end-of-line (heart-beat), or returns an error. An unknown command, a header line with no colon or an empty name, a malformed content-length, a missing NUL after a counted body and a truncated frame are all errors, and no input makes the reader panic.",
  ["inputs"],"all byte streams, including truncated and malicious ones",
  "Tests cover a handful of malformed inputs; the claim is over all byte strings.",
  ["frame/reader.go","frame/header.go","frame/encode.go"],[("Reader.Read","frame/reader.go"),("Reader.readLine","frame/reader.go"),("Header.ContentLength","frame/header.go")])
p("C03","A frame header is an ordered list of entries in which the first entry wins",
  "Adding appends an entry, setting replaces the value of the first entry with that name or appends one, deleting removes every entry with that name and keeps the order of the others, and looking up returns the first value for a name and whether there is one. Listing all values, positional access, the length, bulk adding, constructing from a list and the content-length accessor agree with that list.",
  ["inputs","histories"],"every header, name and value, after every sequence of operations",
  "The tests exercise single small headers; the claim is over every header contents and operation sequence.",
  ["frame/header.go","frame/frame.go"],[("Header methods","frame/header.go"),("New","frame/frame.go")],[("Header.slice","alternating names and values","frame/header.go")])
p("C04","Cloned frames and headers are equal to and independent of the original",
  "Cloning a frame or a header yields an equal value (command, header entries in order, body, and absence of header or body), built on storage of its own. No later operation on the clone or the original changes the other, also when headers were built from the same list of strings.",
  ["inputs","histories"],"every frame or header and every later mutation of either copy",
  "A single clone test compares one value; independence under all later mutations is not testable by sampling.",
  ["frame/frame.go","frame/header.go"],[("Frame.Clone","frame/frame.go"),("Header.Clone","frame/header.go"),("NewHeader","frame/header.go")])
p("C05","Heart-beat header values are parsed exactly or rejected",
  "A client parses a heart-beat value as two decimal millisecond counts separated by one comma and returns exactly those durations, rejecting every other text and every count too large for a duration. A server accepts exactly two counts of one to nine digits (0,0 when the entry is absent) and returns them unchanged, and converting a configured duration to milliseconds never exceeds the permitted maximum.",
  ["inputs"],"every header text and every duration",
  "Tests list a few literals; overflow boundaries and malformed texts are an unbounded space.",
  ["frame/heartbeat.go","server/client/frame.go","server/client/util.go"],[("ParseHeartBeat","frame/heartbeat.go"),("getHeartBeat","server/client/frame.go"),("asMilliseconds","server/client/util.go")])
p("C06","The server negotiates the highest version both sides support",
  "From a CONNECT or STOMP frame the server picks the highest of 1.0, 1.1 and 1.2 listed in accept-version, whatever the order, duplicates and unknown entries in the list. With no accept-version a CONNECT means 1.0 and a STOMP frame is an error; a list with no supported version and any other command are errors.",
  ["inputs"],"every accept-version list in any order",
  "Tests cover a few lists; the claim is over all lists and permutations.",
  ["server/client/frame.go"],[("determineVersion","server/client/frame.go")])
p("C07","A server connection is admitted only by a valid, authenticated CONNECT",
  "Until a CONNECT or STOMP frame without a receipt header, with credentials the authenticator accepts, a common version above 1.0 and a valid heart-beat has been received, the server forwards nothing to queues or topics and answers any frame with an error. On admission it sends exactly one CONNECTED frame carrying the negotiated version and the heart-beat values it will use (each non-zero client value raised to at least the server's configured value), and then announces the connection once.",
  ["inputs","histories","configurations"],"every first frame, credential check outcome, heart-beat configuration",
  "Tests connect with well-formed frames; the space of first frames and configurations is unbounded.",
  ["server/client/conn.go","server/client/frame.go","server/processor.go"],[("handleConnect","server/client/conn.go"),("connecting","server/client/conn.go"),("config.HeartBeat / Authenticate","server/processor.go")])
p("C08","No client frame can crash the server or act without being valid",
  "Whatever frame a connected client sends, handling it never panics; a command a client may not send, a second CONNECT, a missing required header, an invalid acknowledgement mode, a malformed message number, a duplicate or unknown subscription and an unknown transaction are answered with one ERROR frame (carrying the receipt id when one was requested and not yet confirmed) after which the connection ends. A rejected frame causes no request to queues or topics and leaves the subscriptions of the connection unchanged.",
  ["inputs","histories"],"every sequence of frames with arbitrary commands and headers",
  "Tests send a few valid and invalid frames; the claim is over every frame in every connection state.",
  ["server/client/conn.go","server/client/subscription.go"],[("connected","server/client/conn.go"),("processLoop","server/client/conn.go"),("sendErrorImmediately","server/client/conn.go")])
p("C09","Each receipt request is confirmed exactly once with the same id",
  "When a server accepts a frame carrying a receipt header, it sends exactly one RECEIPT frame whose receipt-id is that header's value, before it acts on the frame, and removes the header so that a later commit does not confirm it again. A frame without a receipt header never produces a RECEIPT.",
  ["inputs","histories"],"every accepted client frame, inside and outside transactions",
  "Tests check receipts for a couple of commands; the claim is over every command, header list and transaction history.",
  ["server/client/conn.go"],[("sendReceiptImmediately","server/client/conn.go"),("handle* functions","server/client/conn.go")])
p("C10","Transactions take effect at commit, in order and once, or not at all",
  "Frames sent with an open transaction's id are held back with their transaction header removed; commit processes them once each in arrival order, as if received outside a transaction, and closes the transaction; abort discards them. Beginning an open id, and sending to, committing or aborting an unknown id, are errors, and operations on one transaction id do not affect another.",
  ["inputs","histories"],"every sequence of BEGIN, SEND, ACK, NACK, COMMIT, ABORT with any ids",
  "Tests run a few short scripts; the claim is over all histories and any number of held frames.",
  ["server/client/tx_store.go","server/client/conn.go"],[("txStore","server/client/tx_store.go"),("handleCommit","server/client/conn.go")],[("txStore.transactions","frames held per transaction id","server/client/tx_store.go")])
p("C11","Acknowledgements settle exactly the messages they name",
  "An ACK settles, in order, exactly the outstanding messages of the connection that it names: in client mode those numbered up to the given number, in client-individual mode the one with that number; each settled subscription becomes ready for one more message. A NACK settles only the message with that number and returns it to its queue once, and every other outstanding message stays outstanding.",
  ["inputs","histories"],"every set of outstanding messages in any mode and every acknowledged number",
  "Tests use lists of three or four subscriptions with fixed numbers.",
  ["server/client/subscription_list.go","server/client/subscription.go","server/client/conn.go"],[("SubscriptionList.Ack/Nack","server/client/subscription_list.go"),("IsAckedBy/IsNackedBy","server/client/subscription.go"),("handleAck/handleNack","server/client/conn.go")])
p("C12","A closing connection gives back every subscription and unacknowledged message",
  "When a connection ends for any reason the server withdraws each of its subscriptions once, returns each sent but unacknowledged message to its queue exactly once, returns every queue message still waiting to be written, discards open transactions, announces the disconnection once and closes the network connection. A queue message that reaches a connection after its subscription was cancelled is returned to its queue, not written.",
  ["inputs","histories","fault_sequences"],"any number of subscriptions, unacknowledged messages and pending messages; any cause of termination",
  "Tests disconnect with at most one pending message; the claim is over all connection states.",
  ["server/client/conn.go","server/client/subscription_list.go"],[("cleanupConn","server/client/conn.go"),("cleanupSubChannel","server/client/conn.go"),("processLoop","server/client/conn.go")])
p("C13","The in-memory queue store is FIFO per destination with put-back at the front",
  "For each destination the store returns messages in the order they were enqueued, a requeued message is returned before all others, each stored message is returned exactly once, and an empty or unknown destination yields none. Operations on one destination never affect another.",
  ["inputs","histories"],"every sequence of operations on any destinations",
  "Tests run one fixed script on two names.",
  ["server/queue/memory_queue.go"],[("MemoryQueueStorage","server/queue/memory_queue.go")],[("lists","stored messages per destination","server/queue/memory_queue.go")])
p("C14","A queue message goes to exactly one ready subscriber, or is stored",
  "A message sent or returned to a queue goes to the subscription that has been waiting longest if there is one, which then stops waiting, and otherwise is stored exactly once (at the back when sent, at the front when returned) under the queue's destination. A subscription that becomes ready receives a stored message immediately if there is one and otherwise waits behind the others; cancelling removes only that subscription.",
  ["inputs","histories"],"any number of waiting subscriptions, any storage implementation outcome",
  "Tests use one or two subscriptions and the memory store.",
  ["server/queue/queue.go","server/client/subscription_list.go","server/client/subscription.go"],[("Queue","server/queue/queue.go"),("SubscriptionList","server/client/subscription_list.go")])
p("C15","A topic message is delivered once to every current subscriber",
  "A message sent to a topic is given exactly once to every subscription current at that moment, in subscription order, each receiving an equal message on storage of its own, and to nobody else. Cancelling a subscription removes just that one, and a topic with no subscriptions drops the message.",
  ["inputs","histories"],"any number of subscriptions and any message",
  "Tests use up to three subscriptions.",
  ["server/topic/topic.go","frame/frame.go"],[("Topic.Enqueue","server/topic/topic.go"),("Topic.Unsubscribe","server/topic/topic.go")])
p("C16","Messages and subscriptions are routed by destination name",
  "A destination that begins with /queue is served by the queue of that exact name and every other destination by the topic of that exact name, for sending, subscribing and cancelling alike; returned messages go back only to queues. The same name always finds the same queue or topic, different names find different ones, and looking one up creates it only when needed.",
  ["inputs","histories"],"every destination string and every request sequence",
  "Tests use two or three destinations.",
  ["server/processor.go","server/queue/manager.go","server/topic/manager.go"],[("requestProcessor.Serve","server/processor.go"),("isQueueDestination","server/processor.go"),("Manager.Find","server/queue/manager.go, server/topic/manager.go")])
p("C17","Delivered messages carry fresh numbers and the right subscription headers",
  "Every MESSAGE a server connection writes carries a message number strictly greater than all earlier ones on that connection in both its message-id and id headers, and the id of the subscription it was delivered on. It has an ack header, equal to that number, exactly when the subscription requires acknowledgement, and that number is then the one the acknowledgement must name.",
  ["inputs","histories"],"every message, subscription mode and connection history",
  "Tests look at one or two messages.",
  ["server/client/conn.go","server/client/subscription.go"],[("allocateMessageId","server/client/conn.go"),("setSubscriptionHeader","server/client/subscription.go")])
p("C18","A client SEND carries exactly the given message and options",
  "Sending builds a SEND frame whose body is the given bytes, whose content-length is their number in decimal, whose destination and, when given, content type are those given, followed by the effect of each option in order; nil options are skipped and the first failing option aborts the send with its error and nothing is sent. The provided options set a fresh receipt, remove the content length or append a header entry, and refuse frames of another kind.",
  ["inputs"],"every destination, content type, body and option list",
  "Tests send a few literal messages.",
  ["conn.go","send_options.go","subscribe_options.go"],[("createSendFrame","conn.go"),("SendOpt","send_options.go"),("SubscribeOpt","subscribe_options.go")])
p("C19","Client acknowledgements name the message the way the version requires",
  "Acknowledging a received message yields, for version 1.2, a frame whose id is the message's ack header and, for 1.0 and 1.1, a frame with its subscription and message-id; a missing header is an error. NACK is refused on 1.0 and on automatic subscriptions, ACK on an automatic subscription sends nothing, and a message not received from a server is refused.",
  ["inputs","configurations"],"every version, mode, message and header contents",
  "Tests cover some version and mode combinations with fixed headers.",
  ["conn.go","ack.go","version.go","message.go"],[("createAckNackFrame","conn.go"),("AckMode","ack.go"),("Version.SupportsNack","version.go")])
p("C20","A client transaction tags every operation and ends exactly once",
  "Every send, ACK and NACK made through a transaction carries that transaction's id and its begin, commit and abort frames name it, with a fresh receipt id when one is requested. Once a commit or abort has succeeded every further operation fails without sending anything; a failed commit or abort leaves the transaction open.",
  ["inputs","histories"],"every sequence of operations on a transaction and every outcome of sending",
  "Tests run single scripts with a well-behaved server.",
  ["transaction.go","conn.go"],[("Transaction methods","transaction.go"),("BeginWithError","conn.go")])
p("C21","The client handshake offers its options and adopts the server's answer",
  "Connecting sends one frame carrying the configured command, host, heart-beat, credentials, accepted versions and custom entries, and succeeds only if the answer is CONNECTED with a supported version and a well-formed heart-beat. The connection then reports the server's version (1.0 if absent), session and name, and uses heart-beat intervals derived from both sides' values with the configured tolerance, none being expected or sent when either side opted out.",
  ["inputs","configurations"],"every option list and every server answer",
  "Tests run a handful of handshakes.",
  ["conn.go","conn_options.go","version.go","errors.go"],[("ConnectWithContext","conn.go"),("newConnOptions / NewFrame","conn_options.go")])
p("C22","The client delivers each incoming frame to the subscription or caller it names",
  "A MESSAGE goes to the subscription it names and to no other, a RECEIPT completes exactly the request that asked for it and is then forgotten, an ERROR or a connection failure reaches every waiting subscription and caller, and unknown ids are ignored. Every frame submitted is written once in order (temporary reply queues excepted), and an UNSUBSCRIBE is tagged with a receipt for its subscription's id.",
  ["inputs","histories","schedules"],"every sequence of incoming frames, requests and timer events",
  "Tests run a few fixed exchanges; the claim is over every interleaving of the events of the connection loop.",
  ["conn.go"],[("processLoop","conn.go"),("sendError","conn.go"),("readLoop","conn.go")],[("channels","waiting receivers by id","conn.go processLoop")])
p("C23","A client subscription turns frames into messages and closes once",
  "Each MESSAGE for a subscription is handed to the user once, in order, with its destination, content type, header, body, connection and subscription; an ERROR or lost connection produces one final message carrying the error before the channel closes, and a confirmed cancellation closes it silently. The channel is closed exactly once, the subscription is inactive from the first cancellation request, and cancelling or reading again reports completion.",
  ["inputs","histories"],"every sequence of frames reaching a subscription and every cancellation request",
  "Tests use one or two messages and a single close.",
  ["subscription.go","conn.go"],[("Subscription.readLoop","subscription.go"),("closeChannel","subscription.go"),("Unsubscribe","subscription.go")])
p("C24","After closing, client operations fail cleanly and never touch the closed queue",
  "Once a client connection is closed, every operation that would send reports an error without sending, and closing again does nothing; closing closes the network connection and the submission queue at most once. Send, disconnect and forced disconnect release the connection's lock on every path, never take it twice, wait for a receipt exactly when one was requested, and report a timeout or a non-RECEIPT answer as an error.",
  ["inputs","schedules","fault_sequences"],"every operation in every connection state and every outcome of channels and timers",
  "Tests cover a few close orders; the claim is over all paths of all operations.",
  ["conn.go"],[("Disconnect, MustDisconnect, Send, sendFrame, Subscribe","conn.go"),("readReceiptWithTimeout, sendDataToWriteChWithTimeout","conn.go")],[("Conn.closed","guarded by closeMutex","conn.go")])
p("C25","Generated ids are unique in the process",
  "Every id the client generates for a subscription, receipt or transaction is the decimal form of a counter that is atomically increased for each id, so no two ids of one process are equal, from any goroutine. Ids are non-empty.",
  ["schedules","histories"],"any number of ids requested from any goroutines (up to 2^64-1)",
  "A test can only sample.",
  ["id.go"],[("allocateId","id.go")])
p("C26","Reading a received message streams its body exactly once",
  "Reading a message body returns the bytes in order without loss or repetition for any sequence of buffer sizes and single-byte reads, never returns more than was asked for, and reports end of file exactly when no byte is left. Whether a message needs acknowledging follows from its subscription's mode.",
  ["inputs","histories"],"every body and every sequence of reads",
  "Tests read with one buffer size.",
  ["message.go"],[("Message.Read, ReadByte, ShouldAck","message.go")])
p("C27","The server keeps the heart-beat it negotiated",
  "The server applies a read deadline of twice the negotiated client interval before each read after the handshake, and none when no heart-beat was agreed. When the negotiated write interval passes without a frame having been written, it writes a single end-of-line, and every message it delivers restarts that interval.",
  ["inputs","histories","configurations"],"every negotiated pair of intervals and every sequence of events of the connection loop",
  "Timing tests sample one configuration; the claim is over every path of the loops.",
  ["server/client/conn.go"],[("readLoop","server/client/conn.go"),("processLoop","server/client/conn.go")])
p("C28","Every accepted connection is served and server defaults apply",
  "The accept loop hands every accepted connection to exactly one connection handler, retries temporary failures after a delay that starts at 5 ms, doubles up to 5 s and resets after a success, and ends on a permanent failure. Server defaults (one minute heart-beat, no authentication, in-memory queues) apply exactly when the corresponding setting is absent.",
  ["fault_sequences","configurations"],"every sequence of accept outcomes and every configuration",
  "No test injects accept failures.",
  ["server/processor.go","server/server.go"],[("requestProcessor.Listen","server/processor.go"),("newRequestProcessor, config","server/processor.go")])
p("C29","Client and server make progress without deadlock",
  "As long as users read their subscription channels and the network accepts writes, every submitted operation eventually completes or times out, and a server connection eventually finishes its cleanup.",
  ["schedules","fault_sequences"],"every fair schedule",
  "Tests see few schedules.",
  ["conn.go","subscription.go","server/client/conn.go","server/processor.go"],[("channel protocol between goroutines","conn.go, server/client/conn.go")])
p("C30","No data races between the goroutines of a connection",
  "Concurrent use of one client connection from several goroutines, and of one server by several connections, never accesses shared mutable state without synchronisation.",
  ["schedules"],"every schedule",
  "The race detector sees only the schedules that ran.",
  ["conn.go","subscription.go","server/client/conn.go","server/client/subscription.go"],[("closeMutex, atomics, channel ownership","conn.go, subscription.go")])
p("C31","No queue message is lost across concurrent delivery and disconnection",
  "A message accepted for a queue is, at any time, stored, waiting to be written, unacknowledged on one connection or settled, also when connections end while messages are being handed to them.",
  ["schedules","crash_points"],"every interleaving of the request processor with ending connections",
  "Needs interleavings that tests do not force.",
  ["server/processor.go","server/client/conn.go","server/client/subscription.go"],[("hand-over through channels","server/client/subscription.go, server/client/conn.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import collections
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
