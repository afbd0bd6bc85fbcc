CLAIMED = {
 'C03': "Every method of Header against an ordered list of entries; strconv.ParseUint is trusted to accept exactly decimal numerals that fit.",
 'C04': "Clone, NewHeader and New return fresh storage (header array, body array) with equal contents; together with the frame conditions of every header method (which change the receiver only) later operations are independent.",
 'C13': "MemoryQueueStorage against one list of messages per destination; container/list is modelled (contracts/05list.gcv), its implementation is trusted.",
 'C14': "Queue and SubscriptionList against the list of waiting subscriptions and the trace of calls on the Storage interface and sends to connections. Assumed: a waiting subscription has no message of its own and has a connection (part of the request channel's contract); the processor goroutine owns queues and waiting subscriptions.",
 'C15': "Topic.Enqueue/Subscribe/Unsubscribe against the list of subscriptions and the trace of deliveries (receiver, value, and the identity of frame, header and body). Assumed: a subscription changes only the header of the frame it is given.",
 'C16': "One iteration of the processor loop, for any request that the channel contract allows (which every sender is checked against), changes exactly the queue or topic of the named destination; Find of both managers.",
 'C09': "Every frame handler of a server connection against the trace of frames written and requests sent: one RECEIPT with the id of the receipt entry, before anything else, and the entry removed. Assumed: frame.Writer.Write is used through its contract (C01); a connection goroutine owns its state.",
 'C10': "txStore against one list of frames per transaction id, and handleCommit against the sequence of frames handed to the state function. A commit of which one frame fails is covered up to the failing frame.",
 'C11': "SubscriptionList.Ack/Nack and the two handlers against the list of outstanding messages and the trace of requests. Assumed at entry: the outstanding list holds distinct subscriptions of this connection (kept by the list's own methods).",
 'C25': "allocateId against an atomic counter (sync/atomic trusted; wrap-around after 2^64 ids is out of scope).",
 'C26': "Message.Read, ReadByte and ShouldAck for every buffer and body.",
}
CLAIMED.update({
 'C05': "ParseHeartBeat, getHeartBeat and asMilliseconds for every text, frame and duration. Trusted: the meaning of the regular expressions (axioms re_hb, re_hb9), strings.Split and strconv; 'dec9': a numeral of at most nine digits is below 10^9.",
 'C06': "determineVersion for every frame and list. Trusted: strings.Split, sort.Strings (the same entries, in an order with 1.0 < 1.1 < 1.2).",
})
CLAIMED.update({
 'C07': "connecting, handleConnect and every iteration of processLoop, for any frame: admitted iff the frame is a CONNECT/STOMP without receipt, the authenticator accepts, a common version above 1.0 is listed and the heart-beat is valid; then exactly CONNECTED with the negotiated values is written and one request announces the connection; otherwise one ERROR is written and the loop is left. Assumed: Config's answers are a function of their arguments; the regular expressions (C05).",
 'C08': "Every handler, the state functions and every iteration of processLoop, for any frame with a header: no panic, and a frame that is not valid in the state (macro 'valid') leaves the subscriptions alone, causes no request, and makes the loop write one ERROR (with the receipt id if one is still open) and end. Assumed: what arrives on the connection's own channels was put there by its owners (chaninv local); frame.Writer.Write through its contract.",
 'C12': "cleanupConn, cleanupSubChannel and processLoop: counted over the trace of requests: one withdrawal per subscription, one requeue per waiting message, one announcement, one close of the network connection; iteration contract of processLoop for a message of a cancelled subscription. Out of scope: what the processor sends after the last look at the channel (C31).",
 'C17': "allocateMessageId, setSubscriptionHeader and every iteration of processLoop, for any frame and subscription. Assumed: fewer than 2^64 messages per connection.",
})
CLAIMED.update({
 'C01': "Writer.Write for every frame: exactly the text encf(frame) is appended and flushed; Reader.Read for every text (C02); and the lemma round_trip, proved by induction over texts and header entries: for every frame with a known command, non-empty names and a fitting body, and every text t, reading encf(frame) followed by t gives the frame and leaves t. Trusted: bufio.Writer keeps what it is given until Flush; what the two strings.Replacer tables do to one byte or escape pair (trusted axioms enc_*, dec_*); the tables themselves are read from the code.",
 'C02': "NewReader, readLine and Read for every byte stream and every way the source is cut into reads: an error exactly when the grammar (macro fok, an unbounded recursive definition of a header section) rejects the text, otherwise the frame it assigns and exactly its bytes consumed; every index, slice and allocation in range. Trusted: bufio.Reader's methods over the text that the source still holds (field rest), bytes.IndexByte/HasSuffix, strconv.ParseUint, strings.Replacer.",
})
CLAIMED.update({
 'C18': "createSendFrame, Send and the functions behind SendOpt.* for every message, header list and option list. An option is any function (contract dyn: the result of its application is an uninterpreted function of option and frame); the provided ones are checked against their effect. Assumed: options keep Command and Header non-nil (the provided ones are shown to).",
 'C19': "Conn.createAckNackFrame, Ack and Nack for every message, version and acknowledgement mode.",
 'C20': "Every method of Transaction against the ghost trace of frames submitted; sequential use of one transaction (as documented).",
 'C22': "readLoop and every iteration of the client's processLoop against the trace of events and the table of waiting channels. Assumed (contract 'local'): a frame submitted with a channel has not been submitted with another key; the findings listed in DESIGN.md for keys that collide are outside.",
 'C23': "Subscription.readLoop, closeChannel, Read, Unsubscribe, Active for every frame sequence. Trusted: sync.Once, sync.Cond, atomic (models in contracts/43subscription.gcv). Assumed: state values only grow (shown for the writes in the functions under contract); a subscription's channel is no connection's read channel.",
 'C24': "sendFrame, Send, Disconnect, MustDisconnect, Subscribe, Unsubscribe and transaction operations with the lock as ghost state (held/not held), for every interleaving at the points where the lock is taken (the closed flag is re-read after Lock). Assumed: no other goroutine changes the connection's fields while the lock is held.",
})
CLAIMED.update({
 'C21': "newConnOptions, connOptions.NewFrame, the functions behind ConnOpt.* and ConnectWithContext for every option list and every answer. An option is any function (contract dyn: the result of its application is an uninterpreted relation); the provided ones are checked against their effect. Trusted: net.Conn, context, strings.Join; the heart-beat intervals in use (checkHeartBeat relation of both sides' values) are proved as fields of the connection, their use in the loop is C22's.",
})
NA = {
 'C29': "Progress and deadlock freedom under fair scheduling: contracts give partial correctness of sequential functions; liveness of the goroutine system is out of this family's reach here.",
 'C30': "Absence of data races is a statement about all interleavings of all goroutines; the contracts are sequential, and assume that a goroutine owns the state its functions touch, which is the very thing to be shown.",
 'C31': "Loss in concurrent delivery and disconnection depends on the interleaving of the processor loop and the connection goroutine (including which side of a select wins), which function contracts do not describe; the sequential parts are C11, C12, C13 and C14.",
}
CLAIMED.update({
 'C27': "readLoop: at every call of the frame reader after the first frame that is a CONNECT/STOMP with a valid heart-beat, the deadline was set since the last read, from a time asked for since the last event, plus twice the negotiated interval (or none); processLoop: at every blocking select a timer set for the negotiated interval is live and waited on, it was set in this iteration unless the loop only received frames and wrote nothing, and when it fires exactly one end-of-line is written. Trusted: time.Timer, time.Now/Add and net.Conn.SetReadDeadline (ghost models in contracts/27loop.gcv); that timers fire on time is the runtime's.",
})
CLAIMED.update({
 'C28': "Listen: at every call of Accept and at its end, every connection accepted so far was handed to NewConn exactly once, with this listener's configuration and request channel, after a temporary failure it slept once for 5 ms or twice the previous delay (at most 5 s), after a success not at all, and it returns only after a failure that is not temporary. NewConn: starts one read and one process loop for the connection; at each go statement what the contract of the started function requires is checked. Server.Serve, ListenAndServe, newRequestProcessor and config: defaults exactly when absent. Trusted: net.Listener, net.Error, time.Sleep (ghost models in contracts/30server.gcv and 27loop.gcv); assumed: a configuration has a logger (Server.Serve sets one).",
})
