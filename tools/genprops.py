#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in one place so that it stays in step).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

H="handler/handler.go"; HC="handler/caller.go"; PF="proxy/flux.go"; PM="proxy/mono.go"; PL="proxy/lookup.go"
T="transport/rsocket/transport.go"; TT="transport/rsocket/tcp_transport.go"; TC="transport/rsocket/tcp_conn.go"; TD="transport/rsocket/decoder.go"; TI="transport/rsocket/init.go"
HI="transport/wasmrs/host/instance.go"; HO="transport/wasmrs/host/caller.go"; HH="transport/wasmrs/host/host.go"; G="transport/wasmrs/guest/guest.go"; GC="transport/wasmrs/guest/caller.go"; M="transport/wasmrs/mesh/mesh.go"
FX="rx/flux/flux.go"; FH="rx/flux/flux_host.go"; FP="rx/flux/processor.go"; MX="rx/mono/mono.go"; MH="rx/mono/mono_host.go"; MP="rx/mono/processor.go"; FL="rx/flow/flow.go"
BUF="internal/buffer/unbounded.go"; INV="invoke/handlers.go"; INS="invoke/instances.go"; OPS="operations/operatons.go"

p("C01","Each RSocket request/response call gets exactly its own outcome",
 "On a healthy connection every request/response call, made from either side and interleaved in any way with other calls, ends exactly once, with precisely the value (data and metadata bytes intact) or the error that the handler of that call produced. No call is answered twice, receives another call's answer, or stays unanswered once its handler has produced an outcome. Handlers may answer synchronously or later, and may themselves call back to the peer before answering.",
 ["schedules","inputs","histories"],"all interleavings of callers, dispatcher and handler goroutines, any number of concurrent calls in both directions, all payload sizes, all segmentations and delays of the byte stream",
 "No test opens a connection; the response path crosses four goroutines and a shared socket, and only particular interleavings lose or misdeliver an answer.",
 [H,HC,PM,MP,MX,MH,T,TT,TC],[("stream id to pending call lookup",H+" HandleFrame"),("response sender",H+" handleRequestResponse"),("pending call",PM)],["mono Block/Subscribe callbacks at the caller","handler invocations at the responder"])

p("C02","Request streams deliver the produced items in order with one ending",
 "A request/stream consumer that keeps granting demand receives exactly the items its producer emitted, each once, in order and byte-identical, followed by exactly one terminal signal that matches what the producer signalled (completion or that error), and nothing afterwards. This holds for empty, failing and arbitrarily long streams, for producers that emit synchronously or later from other goroutines, and for any number of concurrent streams in both directions of one connection.",
 ["schedules","inputs","histories"],"all interleavings of producer, demand, dispatcher and consumer goroutines; all stream lengths, page sizes and network segmentations",
 "Existing tests never run a stream; losing demand, reordering, truncation and duplicate terminals need a specific interleaving of request, demand and item frames.",
 [H,HC,PF,FX,FH,FP,T,TC],[("responder stream bridge",H+" handleRequestStream"),("requester stream",PF),("item paging",FX)],["OnNext/OnComplete/OnError of the consumer","items emitted by the producer"])

p("C03","Channel directions are independent, ordered and complete",
 "In a request/channel each direction delivers exactly the items its sender emitted, once, in order and intact, followed by exactly that sender's terminal signal. Completing or cancelling one direction never truncates, stalls or ends the other one, whichever side finishes first; an error that either side signals ends the whole channel, and the other side gets that error (an item that is being delivered at that very moment may still arrive). The opening payload reaches the handler intact before any item.",
 ["schedules","inputs","histories"],"all interleavings of the two senders, their demand and their terminal signals, all lengths in each direction including zero, both ends as requester",
 "No test runs a channel; half-close and early-completion orderings are schedule dependent.",
 [H,HC,PF,FX,FP],[("responder channel bridge",H+" handleRequestChannel"),("requester inbound subscription",PF+" Request"),("stream removal on completion",H+" HandleFrame")],["OnNext/OnComplete/OnError on both ends"])

p("C04","Remote producers see exactly the demand the consumer issued",
 "For every stream or channel direction the total demand a producer has been asked for never exceeds what the consumer on the other end granted, and while the stream is live all granted demand eventually reaches the producer, so a consumer that asks in pages is neither flooded nor stalled. A producer that respects demand never has more items delivered than granted, at any moment.",
 ["schedules","inputs","histories"],"all page sizes, demand patterns (up front, one by one, from callbacks, from other goroutines) and all interleavings of demand frames with item, completion and cancel frames",
 "Demand is forwarded by separate goroutines and frames; loss or duplication appears only under particular timings and no test exercises it.",
 [H,HI,PF,FX,FH],[("demand forwarding",PF+" Request"),("demand delivery",H+" RequestN"),("demand accounting",FX+" Request")],["request callback of the producer's sink","Request calls of the consumer"],
 [("n","outstanding demand",FX+" subscriber")])

p("C05","Cancelling a stream stops its producer and disturbs nothing else",
 "When a consumer cancels a stream or a channel direction at any instant, the remote producer is told to cancel (unless it already finished) within bounded time, the consumer gets no terminal signal other than its cancellation, and frames that cross the cancellation on the wire are harmless. Every other call on the connection is unaffected and later calls still work.",
 ["schedules","histories"],"all instants of cancellation relative to request, demand, item, completion and error frames; cancellation from callbacks and from other goroutines; both directions",
 "Cancellation racing with completion or with the initial request is pure interleaving; no test cancels anything.",
 [H,HC,PF,FX,PL],[("cancel forwarding",PF+" Cancel"),("cancel dispatch",H+" HandleFrame"),("subscription cancel",FX+" Cancel")],["cancel callback of the producer's sink","consumer callbacks","outcome of other calls"])

p("C06","Fire-and-forget runs its handler exactly once and harms nothing",
 "Every fire-and-forget message sent on a healthy connection, from either side, invokes the addressed handler exactly once with the payload that was sent, whatever else is in flight. A message addressed to an operation the peer does not have, or one whose metadata is too short to name an operation, is dropped without invoking anything and without disturbing the connection or other calls.",
 ["schedules","inputs","histories"],"all interleavings and payloads, known, unknown and malformed operation metadata",
 "No test sends one; the damage done by a rejected message only shows on other calls sharing the connection.",
 [H,HC,G,HI],[("dispatch",H+" handleFireAndForget"),("sender",HC+" FireAndForget")],["handler invocations","outcome of other calls on the connection"])

p("C07","Concurrent senders never corrupt frames, however the bytes travel",
 "Frames sent from any number of goroutines over one connection arrive at the peer whole, unmodified and exactly once, and the frames of any one goroutine arrive in the order it sent them. This holds for every frame size the protocol can carry and for every way the network splits, coalesces and delays the bytes.",
 ["schedules","inputs"],"all interleavings of concurrent senders and flushes, all frame types and sizes up to the protocol maximum, all segmentations and partial reads",
 "Framing is only tested on single in-memory encodes; interleaved writes need concurrent senders at specific points.",
 [T,TC,TD,"internal/u24/u24.go","internal/frames/payload.go","internal/frames/request_payload.go"],[("frame write",TC+" Write"),("send",T+" Send"),("frame split",TD)],["frames read at the peer","bytes on the simulated wire"])

p("C08","Malformed or corrupted peer input is contained",
 "Whatever bytes a peer sends - truncated or oversized frames, inconsistent lengths, unknown types, frames for unknown streams, a missing or broken handshake, random corruption - the receiving process never crashes or hangs, and other connections of the same server keep working. At worst the offending connection is closed, and then calls that were made over it end like those of any lost connection. A well-formed frame for a stream that is not (or no longer) known is ignored.",
 ["inputs","fault_sequences","schedules"],"all byte strings and frame sequences, corruption at any point of a live conversation",
 "Tests decode only well-formed frames; the claim is about every byte string at every protocol state, with concurrent healthy traffic.",
 [H,TC,TD,"internal/frames/setup.go","internal/frames/payload.go","internal/frames/request_payload.go","internal/frames/error.go","internal/frames/request_n.go",OPS],[("frame decoding",TC+" Read"),("dispatch",H+" HandleFrame"),("handshake",T+" Start")],["process survival","healthy connection's calls"])

p("C09","Losing the connection ends every outstanding call",
 "When a connection ends - closed by either side, reset, or failing on read or write at any point - every request/response, stream or channel still outstanding on it, on the calling side, ends with an error within bounded time, and calls started afterwards fail promptly instead of hanging. Producers that were serving the lost peer are cancelled, and a call whose answer was already delivered is not altered.",
 ["crash_points","fault_sequences","schedules"],"a connection loss of any kind (EOF, reset, local close, cancelled context, write error) at any point of any workload",
 "No test has a connection to lose; the claim quantifies over every crash point.",
 [H,HC,T,TT,PM,PF],[("read loop end",T+" Start"),("pending calls",PL),("handler close",H+" Close")],["outcome of outstanding calls","cancel callbacks of producers"])

p("C10","Server and transport lifecycle is clean",
 "A server reports readiness exactly once, accepts connections until it is closed or its context ends, and then stops listening, closes every connection and returns; this also holds when close happens before, during or concurrently with start-up, accepts and handshakes, and repeated closes are harmless. Once a connection or a server has ended, everything it started has stopped: nothing it spawned stays blocked forever.",
 ["schedules","fault_sequences","histories"],"all orderings of listen, accept, handshake, traffic, connection loss, context cancellation and close, with listen and accept errors",
 "No test starts a server; shutdown races and leaks only appear in particular orders.",
 [TT,T,BUF,TI],[("listen loop",TT+" Listen"),("close",TT+" Close"),("transport run loop",T+" Start")],["return of Listen/Start","state of simulated sockets","goroutines left at quiescence"])

p("C11","The stream registry behaves like an atomic map",
 "Under any concurrent use, registering, looking up and removing streams behaves as if each operation happened atomically: a registered stream is found until it is removed, a removed or never registered one is not found, and the reported size is the number of registered streams. Operations on one stream never affect another.",
 ["schedules","histories"],"all interleavings of add, get, remove and size from any number of goroutines over any set of ids",
 "The registry has no tests; a linked list under concurrency breaks only on specific sequences.",
 [PL],[("linked list under a mutex",PL)],["return values of the operations"],[("head/tail/count","registered streams",PL)])

p("C12","Stream identifiers are unique, correctly partitioned and never zero",
 "Identifiers handed out concurrently to one endpoint are pairwise distinct until the identifier space wraps, belong to that endpoint's half of the space (odd for one side, even for the other), are never zero and always fit in 31 bits, including across the wrap-around. Two endpoints of one connection therefore never pick the same identifier.",
 ["schedules","histories"],"all interleavings of concurrent allocation from any starting point of the counter, including the wrap boundaries",
 "Tests allocate sequentially from zero.",
 ["internal/socket/stream_id.go",HC,HO,GC],[("atomic counter","internal/socket/stream_id.go")],["identifiers returned"])

p("C13","Reactive sequences obey the terminal contract under concurrency",
 "For every flux and mono, however it is built (created, error, just, slice, mapped, processor, converted from the other kind) and however producers, consumers, cancellation and completion race, a subscriber gets at most one terminal signal, its final callback and every registered completion callback run exactly once with the signal that ended the sequence, and a producer that signals one thing after another never gets an item through after the end (when the end is a concurrent cancellation, at most the item that is being delivered at that moment). A sequence made of another one ends whenever that one ends. A blocking consumer returns exactly when the sequence ends, with its value or error.",
 ["schedules","histories","programs"],"all interleavings of producers, subscribers, cancellers, late registration of completion callbacks and blocking waits, over all compositions of operators",
 "There are no tests of the reactive types; double terminals and lost callbacks need two goroutines at the same point.",
 [FX,FH,FP,MX,MH,MP,"rx/flux/slice.go","transform/transform.go"],[("closed flag",FX+" subscriber"),("finally",FX+" finally"),("blocking wait",FH+" Block")],["subscriber callbacks","Notify callbacks","Block return"])

p("C14","Demand inside a flux is conserved",
 "The demand a flux source is asked for equals the demand its subscriber issued, with nothing lost or invented, also when requests, item delivery and subscription happen concurrently, and demand issued before the source is ready is delivered once it is. A subscriber that asks for pages gets its page callback again exactly when the previous page has been delivered in full, and cancelling tells the source at most once.",
 ["schedules","histories","inputs"],"all interleavings of Request, Next, OnSubscribe and Cancel, all page sizes",
 "No tests; lost updates need two goroutines inside the accounting.",
 [FX,FH,FP,"rx/flux/response.go","rx/flux/slice.go"],[("demand counter",FX+" Request"),("asynchronous request delivery",FH+" doRequest")],["source request callback","page callback"])

p("C15","Flows run each step once, in order, after everything awaited has ended",
 "A flow runs its steps in order, each exactly once, and starts a step only after everything the previous step awaited has ended; it never loses a wake-up, so when everything awaited ends the next step does run. An error from a step ends the flow with that error, a result ends it with that result, exactly once, and nothing runs after the flow ended.",
 ["schedules","histories","programs"],"all interleavings and all combinations of already finished, synchronously finishing and later finishing awaitables, in any number, including none",
 "The flow engine has no tests; double and lost wake-ups depend on when an awaited item finishes relative to registration.",
 [FL,"rx/await/await.go",MX,FX,PM,PF],[("step sequencing",FL+" next"),("completion counting",FL+" check")],["step executions","awaitable states","flow result"])

p("C16","The unbounded buffer is a lossless FIFO until disposed",
 "Values put from any number of goroutines come out exactly once, in put order per producer, without a put ever blocking, and a consumer following the documented protocol gets every accepted value and is never left waiting while values are buffered. After disposal further puts are refused, already accepted values are still delivered, and the consumer then sees the end; disposal at any moment, and more than once, is safe.",
 ["schedules","histories"],"all interleavings of producers, the consumer and disposal",
 "Tests cover a few fixed patterns; loss and missed wake-ups around disposal and hand-over need exact interleavings.",
 [BUF,T],[("backlog and hand-over channel",BUF)],["values received","end of channel"])

p("C17","Instance handles resolve to exactly the instance they were issued for",
 "A live-instance handle resolves to exactly the instance it was issued for from the moment it is issued until it is removed, and to nothing before and ever after, even when later instances are registered and memory is reclaimed. Concurrent registration, lookup and removal behave as if atomic, and exactly one of several concurrent removals of a handle succeeds.",
 ["schedules","histories","inputs"],"all interleavings of put, get and remove, arbitrary (including stale and forged) handle values, any memory reuse",
 "The tests do not touch the registry; aliasing a stale handle needs address reuse.",
 [INS],[("handle map",INS)],["values returned for handles"])

p("C18","Host and WebAssembly guest exchange all interactions faithfully",
 "Across the WebAssembly boundary, in both directions, request/response, fire-and-forget, request/stream and request/channel behave as over any transport: each call gets exactly its own outcome, items arrive once, intact and in order with the producer's ending, demand is honoured, and cancellation reaches the producer. This holds for any mixture of concurrent calls, including guest handlers that call back into the host before they answer.",
 ["schedules","inputs","histories"],"all interleavings of host goroutines with the single-threaded guest, all interaction kinds, nesting and payload sizes within the buffers",
 "There are no tests with a guest; the shared buffers and loops misbehave only under specific interleavings.",
 [HI,HO,HH,G,GC,PF,PM,FX],[("host send/receive loops",HI),("guest dispatch",G+" GuestSend")],["outcomes at callers on both sides"])

p("C19","The boundary stays live under load and the guest is entered once",
 "However many calls and items are in flight between host and guest, in both directions, the two sides never deadlock: all work completes in bounded time. The guest is never entered by two host goroutines at the same time.",
 ["schedules","inputs"],"all interleavings and all volumes of concurrent traffic, including guests that answer each incoming item with outgoing ones",
 "A boundary deadlock needs the queues of both directions to fill at once; no test has a guest.",
 [HI,G],[("send queue and receive queue",HI+" sendLoop/recvLoop/hostSend")],["completion of all calls","concurrent guest entries"])

p("C20","Closing an instance and failing guests are handled cleanly",
 "Closing a host instance at any time, also concurrently with calls in either direction, waits only for requests the guest is still being served, then releases everything, never panics and never hangs; repeated closes are harmless and calls made after the close end with an error. A guest that traps, or a frame too large for its buffer, makes the affected calls end with an error, never a hang, a truncated message or a crash of the host.",
 ["crash_points","fault_sequences","schedules"],"close, trap or oversize message at every point of every workload",
 "No test closes an instance; the race between close and in-flight frames is schedule dependent.",
 [HI,HO,G],[("active request counting",HI+" Close"),("send loop",HI+" sendLoop")],["outcome of calls","return of Close","process survival"],
 [("activeRequests","requests being served for the guest",HI)])

p("C21","The mesh routes every operation to its current provider",
 "In a mesh, a call to a namespace and operation, from outside or from a loaded module, reaches the module that currently exports it and comes back with that module's answer, whatever the order in which modules were loaded and although modules number their operations independently. After a module is reloaded, new calls reach the new instance, calls already running on the old one finish if they end within its grace period of five seconds, and calls keep working after the old instance is shut down. A module that cannot be loaded is reported and changes nothing. Closing the mesh closes every module it has loaded and leaves nothing behind; calls made afterwards end with an error.",
 ["histories","schedules","configurations"],"all load orders, import/export graphs and reloads, concurrent with running calls, across the delayed shutdown of replaced instances",
 "The mesh has no tests; stale routing shows only after a reload plus the delayed close.",
 [M,HI,INV,OPS],[("operation linking",M+" linkOperations"),("reload",M+" LoadModule")],["which module served a call","call outcomes"])

p("C22","Random UUIDs never reuse random bytes, even with failing sources",
 "Every successfully generated random UUID carries the version and variant bits and is built from bytes of the random source that no other generated UUID uses, with and without the pool, from any number of goroutines. When the source fails or returns short reads, generation either fails with an error or still returns a UUID made entirely of fresh random bytes - never one with stale, zero or reused bytes - and works again once the source recovers.",
 ["schedules","fault_sequences","histories"],"all interleavings of generators, all failure and short-read patterns of the random source",
 "Tests use a healthy source; reuse after a failed refill needs a fault at the right read.",
 ["types/uuid/version4.go","types/uuid/uuid.go","types/uuid/util.go"],[("random pool","types/uuid/version4.go")],["generated UUIDs against the bytes supplied"])

p("C23","UUID timestamps stay unique when the clock misbehaves",
 "Time readings handed out for time-based identifiers never repeat a (time, clock sequence) pair while no clock sequence is set explicitly, even when the clock stalls, jumps backwards or is read concurrently, until the sequence space itself is exhausted for one instant. The clock sequence reported always equals the one used and keeps its 14-bit range.",
 ["schedules","fault_sequences","histories"],"all clock behaviours (stall, backward and forward jumps) and all interleavings of readers",
 "Tests read the real, forward-moving clock from one goroutine.",
 ["types/uuid/time.go"],[("last time and sequence under a mutex","types/uuid/time.go")],["returned times and sequences"])

p("C24","Calls reach the operation they name and unknown ones fail alone",
 "An operation imported by namespace, name and kind from a peer that announced its operations in the handshake resolves to the peer's handler for exactly that operation, and calls to it run that handler and no other, for any set and order of exported operations. A call that names no existing operation, or whose metadata is too short to name one, ends with an error at its caller and leaves the connection and all other calls undisturbed.",
 ["inputs","schedules","configurations"],"all sets of exported operations with overlapping names and kinds, valid and invalid operation numbers, with concurrent healthy traffic",
 "Tests never connect two peers; the handshake decides the numbering at run time.",
 [H,HC,INV,OPS,TI,T],[("operation table exchange",TI+" Connect"),("lookup",HC),("dispatch",H)],["which handler ran","error at the caller","other calls"])

p("C25","Finished interactions leave nothing behind",
 "Once an interaction has ended - completed, failed, cancelled or refused - neither endpoint keeps anything of it: over any long history on a healthy connection or guest boundary, memory and goroutines held are bounded by the interactions still in progress. In particular a late frame naming a finished interaction affects nothing.",
 ["histories","schedules"],"all histories of calls of all kinds and endings, all interleavings of their last frames",
 "A leak only shows over long histories; unit tests run single operations.",
 [H,PL,PF,PM,HI,G],[("stream removal",H+" removeStream"),("registry",PL)],["reachability of finished calls' objects","goroutines at quiescence"])

p("C26","Calls a guest makes for a call it serves run under that call's context",
 "When a guest that serves a request/response call makes calls of any kind to the host and names the call it serves (the stream identifier that its handler's context tells) as their parent, the host's handlers run under the context that the host's caller gave for that call, as long as that call has not been answered. A call that names no parent, an unknown one or one that is over runs under a context of its own; no call ever runs under the context of another call, whatever else is in flight on this or another guest.",
 ["schedules","histories"],"all interleavings of concurrent calls of several guests, all kinds, parents that are answered meanwhile, unknown parents",
 "No test runs a guest; whose context a call gets depends on which streams are registered at that very moment.",
 [HI,G,"proxy/stream.go",PL],[("parent lookup",HI+" parentContext"),("stream identifier for the handler",G+" handleRequestResponse"),("context key","proxy/stream.go")],["context values seen by the host's handlers"])

p("C27","A misbehaving guest harms only itself",
 "Whatever a guest module does - writes any bytes as frames or as its operation table, passes wrong addresses and lengths to the host's functions, calls them at the wrong time, lacks exports, traps at any point, opens streams under any identifier - the host process never crashes or hangs, its memory use stays bounded by what the guest sends, and calls to and from other guests are unaffected. Calls that are outstanding with the misbehaving guest end at the latest when its instance is closed, Close returns, and afterwards no goroutine and no module is left behind. A guest that fails to start makes Instantiate return an error, leaves nothing behind either, and the same host can start another one.",
 ["inputs","fault_sequences","schedules"],"all byte strings, addresses and call sequences a guest can produce at any protocol state, with calls of well-behaved guests going on",
 "Tests run no guest at all; the claim is about every behaviour of untrusted code on the other side of the boundary, at every state, next to concurrent work.",
 [HI,HH,HO,H,OPS,"internal/frames"],[("host functions",HH),("operation table",HI+" opList"),("frame dispatch",HI+" hostSend"),("stream acceptance",HI+" acceptStream")],["process survival","outcomes of the good guests' calls","goroutines and modules after Close"])

p("C28","A mesh can reload its modules forever",
 "Over any history of loading modules into a mesh and loading them again, one after the other or at once, idle or under calls, and including loads that fail, nothing accumulates: once the grace period of replaced modules is over and the calls on them have ended they are closed, neither goroutines nor memory nor the instances themselves are kept for them, and what the mesh holds stays bounded by the modules currently loaded and the operations ever exported, even if modules import operations that nobody exports. A module that fails to load leaves nothing running.",
 ["histories","schedules","fault_sequences"],"all histories of loads and failing loads, import/export graphs with unsatisfied imports, interleaved with calls from outside and between modules",
 "The mesh has no tests, and what a reload leaves behind only shows over a long history of reloads past the delayed shutdown of each.",
 [M,HI,HO],[("reload",M+" LoadModule"),("unsatisfied imports",M+" linkOperations"),("delayed shutdown",M+" LoadModule"),("closing the module",HI+" sendLoop")],["reachability of replaced instances","goroutines","open modules","size of what the mesh holds"])

p("C29","A client can connect again with the same handler",
 "When a client has lost its connection in any way, or the server was replaced by another one, the same handler can be connected again, any number of times, and every call made over the new connection, in either direction, behaves exactly as over a first one. Nothing that was going on over an earlier connection reaches the new one: handlers and producers of earlier calls that answer, emit, ask for input, cancel or fail late affect no call of the new connection. A call made while the connection is being established either fails or is made over it, and never disturbs it. However often a handler is connected again, nothing accumulates, and connections of other clients are not affected.",
 ["histories","schedules","fault_sequences"],"all histories of connections of one handler, ended in any way at any point and followed by others, with calls of all kinds in both directions, and with handlers that outlive the connection they were called over",
 "The tests never open a connection; stream identifiers mean something else on every connection, so what outlives one shows only in the right history and timing.",
 [H,"transport/rsocket/init.go","transport/rsocket/transport.go","proxy/responder.go"],[("what answers go over",H+" connection"),("connecting","transport/rsocket/init.go Connect"),("end of a connection",H+" Close")],["outcomes of calls over the new connection","handler invocations","memory and goroutines over many reconnections"])

# not applicable to this technique
p("C30","Typed values arrive unchanged and bad ones harm only their own call",
 "A typed value that one side sends through the transforms and the MessagePack codecs, in a request, an answer, a stream or an upload, arrives unchanged at the other, in whatever form that MessagePack allows for it, however many calls with values of any types run at once, and stays unchanged afterwards. Its encoding is valid MessagePack of exactly the predicted size; a record with a field the receiver does not know is read without it; a value without an encoding fails to encode. Payloads that are truncated, damaged, of another type or made up end their own call with an error or a value, never with a crash, a hang or memory out of proportion to their size, and a truncated one, or one with a part of a type it cannot have, never with a value; all other calls are unaffected.",
 ["inputs","faults","schedules"],"all supported types and values, all byte strings, any number of concurrent calls in both directions","Tests use sample values of single types, no damaged input and no concurrent use.",
 ["msgpack/encoder.go","msgpack/decoder.go","msgpack/sizer.go","msgpack/data_reader.go","msgpack/utils.go","msgpack/convert/convert.go","transform/transform.go"],[("encoder/decoder/sizer","msgpack"),("transforms of payloads","transform")],["values at the handlers and callers","payload bytes","outcome of the calls"])
p("C31","Frames and fragments survive encoding and decoding",
 "Every frame decodes to what was encoded, its size is predicted exactly, and the fragments a large frame is split into carry together exactly its metadata and data within the size limit.",
 ["inputs"],"all frames and fragment sizes","Tests use sample frames.",
 ["internal/frames"],[("codec","internal/frames")],["round trip"])
p("C32","UUID text and binary forms round-trip",
 "Every UUID's text, URN and binary form parses back to the same UUID and every malformed text is rejected with an error.",
 ["inputs"],"all UUIDs and strings","Tests use samples.",
 ["types/uuid/uuid.go","types/uuid/marshal.go"],[("parse/format","types/uuid/uuid.go")],["round trip"])
p("C33","Custom sections of a WebAssembly binary are read faithfully",
 "Reading the custom sections of any WebAssembly binary returns each section's name and bytes, and rejects malformed binaries with an error.",
 ["inputs"],"all byte strings","No tests.",
 ["transport/wasmrs/customsections/customsections.go"],[("section scan","transport/wasmrs/customsections/customsections.go")],["sections returned"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
