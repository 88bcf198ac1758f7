#!/usr/bin/env python3
"""Writes properties.jsonl (single source for ids/titles/statements)."""
import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Jitter buffer delivers whole samples in order, each packet at most once",
 "Whatever order, delay, duplication or loss the network applies to an RTP stream, the jitter buffer hands samples to its handler in strictly increasing sequence-number order (modulo 2^16). Every sample is one gap-free run of packets from a partition head to the next partition tail, every packet in it is one that was pushed (same header and payload), no packet is delivered twice, and padding packets are never delivered. A jump of more than 3000 sequence numbers starts a new stream, to which the same applies.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all arrival orders, duplications, losses and delays of a stream of single- and multi-packet samples starting at any sequence number (including across the 16-bit wrap), all interleavings of several pushers, Flush, UpdateLatency, the expiry timer and Close",
 "The unit tests push a handful of fixed in-order/one-swap sequences from one goroutine; they never duplicate packets, never race the expiry timer with a push, and sample one wrap-around.",
 ["jitter/buffer.go","jitter/packet.go"],
 [("ordered doubly linked list insertion","jitter/buffer.go push"),("sample completeness test","jitter/packet.go isComplete"),("pop in order","jitter/buffer.go popReady/popSample")],
 ["jitter.NewBuffer handler callback"],[("prevSN/head/tail/pool","next expected sequence number and the pending packets","jitter/buffer.go")])

p("C02","Jitter buffer holds packets no longer and no shorter than it must",
 "A complete sample that directly follows the last delivered one is delivered within the push that completes it, and a sample behind a gap is never delivered before the configured latency has passed since its first packet was received (unless Flush is called). No packet stays buffered longer than the latency past the newest arrival ahead of it, so a gap or an incomplete sample delays the stream by at most the latency; consequently a packet that was merely reordered by less than the latency is never lost. After Flush nothing is buffered, and after the stream stops the buffer drains by itself within the latency.",
 ["schedules","inputs","fault_sequences"],
 "all arrival patterns, timer firings racing pushes, stalls of any task, latency updates in mid-stream; bounded liveness once faults stop",
 "Tests use real sleeps far larger than the latency and look only at the final state; an early release, a missed timer reset or a lost wake-up between push and timer would pass.",
 ["jitter/buffer.go"],
 [("expiry computation and timer re-arm","jitter/buffer.go popReady"),("latency update","jitter/buffer.go UpdateLatency"),("drop of expired incomplete samples","jitter/buffer.go dropIncomplete"),("flush","jitter/buffer.go Flush")],
 ["handler callback time vs. push time on the simulated clock","Buffer.Size"])

p("C03","Jitter buffer statistics and loss callback account for every packet",
 "At every quiescent point each pushed packet is accounted for exactly once: pushed = popped + dropped + still buffered + discarded padding, popped samples and packets equal those handed out (plus expired padding-only ones), and lost equals the number of sequence numbers the buffer skipped over. All counters only grow, and whenever packets have been lost or dropped the loss handler has been called with the counter values current at that moment. The loss ratio is the share of dropped packets among those pushed, 0 before the first.",
 ["schedules","inputs","histories"],
 "all arrival histories with losses, duplicates, late packets, incomplete samples and padding; Stats/Size polled concurrently with pushes, flushes and timer expiry",
 "Tests compare totals of a few scripted sequences; duplicates, late packets and concurrent observers are never combined.",
 ["jitter/buffer.go"],
 [("counters under the buffer lock","jitter/buffer.go push/popReady/dropIncomplete"),("loss callback","jitter/buffer.go onPacketLoss calls")],
 ["Buffer.Stats","Buffer.Size","WithPacketLossHandler callback"])

p("C04","Mixer output is the saturated sum of its inputs, oldest samples dropped first",
 "Every output frame has the configured frame size and each of its samples is the sum of the corresponding samples of the inputs playing at that moment, clamped to [-32767, 32767]. Each input is consumed as a stream: its samples appear in the output in the order written, each at most once, and only the oldest ones are discarded when more than the input buffer's capacity is pending; an input contributes nothing until it has buffered the required minimum, again after it starves, and after it is closed.",
 ["schedules","inputs","configurations"],
 "all interleavings of input writers (any chunk sizes), input creation/removal and the mixing task, any number of inputs, any buffer setting, clock jumps that trigger several mixes at once",
 "Tests drive the mixing function by hand from one goroutine; the concurrent paths (write vs. read of an input, add/remove during a mix, several mixes in one tick) are never interleaved.",
 ["mixer/mixer.go","ring/buffer.go"],
 [("sum and clamp","mixer/mixer.go mixOnce/mixInputs"),("per-input ring buffer with drop-oldest","mixer/mixer.go Input.WriteSample, ring/buffer.go Write/Read"),("start/restart buffering","mixer/mixer.go Input.readSample")],
 ["frames received by the output writer","mixer.Stats"])

p("C05","Mixer keeps real-time pace and never floods its output",
 "While it runs, the mixer emits one frame per configured interval on average with no long-term drift: after a stall of any task or a clock pause it catches up by emitting the missed frames, but never more than the input buffer depth at once, after which it re-anchors to the current time. Over any window without stalls the number of frames differs from elapsed time / interval by at most one plus the catch-up allowance.",
 ["schedules","fault_sequences","configurations"],
 "all stall lengths and positions, slow output writers, scheduling jitter smaller or larger than the tick, any interval and buffer depth",
 "Wall-clock tests can only check the happy cadence coarsely; they cannot place a stall at a chosen instant or observe drift over simulated hours.",
 ["mixer/mixer.go"],
 [("catch-up computation with fuzz and cap","mixer/mixer.go mixUpdate")],
 ["times of frames at the output writer on the simulated clock","Stats.Mixes/TimedMixes/JumpMixes/TimingResets"])

p("C06","Mixer lifecycle: stop is final, nothing leaks, frames leave in order",
 "Stop returns promptly whatever the output is doing; after it, the mixer and its output-channel writer end as soon as the writes in progress return (writing at most frames that were already due or queued), and NewInput returns nil. With an output channel, frames reach the writer in mixing order, none duplicated, none lost before Stop, and mixing waits rather than drops when the channel is full. The published counters (open/closed inputs, frames mixed, written, timed, caught up, dropped and restarted, output and write errors) match what actually happened, and closing an input twice or after Stop is harmless.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of Stop, NewInput, Input.Close, writes and mixing; output writers that are slow, blocked or failing; output channel present or absent and of any size",
 "Tests never stop a mixer whose output is blocked and do not check for leaked goroutines or concurrent add/remove with Stop.",
 ["mixer/mixer.go"],
 [("stop fuse","mixer/mixer.go Stop/start/writer"),("output channel hand-off","mixer/mixer.go mixOnce/writer"),("input registry","mixer/mixer.go NewInput/RemoveInput")],
 ["output writer calls","live tasks after Stop","mixer.Stats"])

p("C07","RTP sequence writer numbers packets consecutively and never mixes fields",
 "All packets produced through one sequence writer, from any number of streams and callers concurrently, carry the same SSRC and version 2 and consecutive sequence numbers (modulo 2^16) in the order they reach the underlying writer, starting at 0. Each packet's payload type, marker, timestamp and payload are exactly those of one single write call, and a write that fails in the underlying writer is reported to its caller and consumes no sequence number.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings of concurrent writers on several streams and direct events, with write errors injected at arbitrary points, over more than 2^16 packets",
 "Tests write sequentially with a writer that never fails, so lock scope and error paths are not exercised.",
 ["rtp/rtp.go"],
 [("header reuse under lock","rtp/rtp.go SeqWriter.WriteEvent")],
 ["packets at the underlying Writer","errors returned by WritePayload/WriteEvent"])

p("C08","RTP stream timestamps advance by media time and stay aligned across streams",
 "Within one stream, each successful frame write carries the previous timestamp plus the frame duration (plus any explicit delay), packets written at the current time share one timestamp, and timestamps never go backwards (modulo 2^32) unless reset explicitly; a failed write does not advance time. A stream that lags more than 25 frames behind the furthest stream of the same sequence writer jumps forward to that stream's position, and one that lags less is left alone, also when timestamps pass 2^32.",
 ["schedules","histories","fault_sequences","inputs"],
 "all interleavings of writes, delays and resets over several streams with different frame durations, failing writes, starting timestamps anywhere including just below 2^32",
 "Tests cover two streams sequentially from timestamp 0; the compare-and-swap race, failures and the 32-bit wrap are never reached.",
 ["rtp/rtp.go"],
 [("shared maximum timestamp","rtp/rtp.go SeqWriter.CurTS"),("per-stream timestamp","rtp/rtp.go Stream.writePayload/Delay/ResetTimestamp")],
 ["packet timestamps at the underlying Writer","Stream.GetCurrentTimestamp"])

p("C09","DTMF transmission is complete, well-formed and correctly timed",
 "Writing a digit string emits, in order and for every digit exactly once, an RFC 4733 event: all its packets share one timestamp, the first alone carries the marker, durations increase by one frame until they reach the tone's 250 ms (rounded up to a frame), and the end packet is sent three times; successive digits are spaced by the tone, pause and 'w' delays in both timestamps and time. In-band audio, when requested, carries one frame per 20 ms tick with tone and silence at matching positions; cancellation or a failing writer stops the transmission promptly with that error, and either output may be absent.",
 ["schedules","inputs","fault_sequences","crash_points"],
 "all digit strings, cancellation at any instant, write errors in the audio or event writer at any packet, other streams on the same sequence writer running concurrently, stalls",
 "The single test runs one string in real time without faults, cancellation, or concurrent audio.",
 ["dtmf/dtmf.go","rtp/rtp.go","tones/tones.go"],
 [("tick loop and event state machine","dtmf/dtmf.go Write")],
 ["RTP packets and PCM frames with their simulated times","error returned by dtmf.Write"])

p("C10","Paced playout plays every frame once, in order, at the frame rate, until told",
 "Playing a list of frames writes each frame exactly once and in order, one per interval, never ahead of the interval schedule, and returns without error after the last; playing tones repeats the tone/silence pattern with each segment lasting its configured duration. Cancelling the context ends playout within one interval and returns the context's error, without another write being started afterwards other than one whose tick was already due, and a writer error ends it immediately and is returned.",
 ["schedules","fault_sequences","crash_points","inputs"],
 "all frame lists, intervals and tone patterns; cancellation or deadline at any instant; writer errors and slow writers at any frame; stalls",
 "Tests play a short clip in real time and cannot place cancellations or stalls at chosen instants.",
 ["pcm.go","tones/tones.go"],
 [("ticker loop with context","pcm.go PlayAudio"),("tone state machine","tones/tones.go Play")],
 ["frames at the writer with simulated times","returned error"])

p("C11","In-memory pipe transfers samples synchronously, in order, without loss",
 "Concurrent writers and readers of a pipe observe one order: what the readers obtain, concatenated, is the concatenation of the written blocks in some order consistent with real time, and a write returns success only when all of its data has been consumed. After either side closes, every blocked or later call returns without hanging: readers get the writer's close error or EOF, writers get the reader's close error or closed-pipe, the first close error wins, and no sample is delivered twice or invented.",
 ["schedules","histories","crash_points"],
 "all interleavings of writers, readers and closers on either side, all block and buffer sizes including empty, all close errors",
 "Tests run one reader and one writer; close racing with transfers and several writers are not explored.",
 ["pipe.go"],
 [("rendezvous channels and done channel","pipe.go pipe.read/write"),("first error wins","pipe.go onceError/closeRead/closeWrite")],
 ["ReadSample/WriteSample/Close results per caller"])

p("C12","Frame re-chunking conserves samples across errors and concurrency",
 "A frame buffer forwards exactly the samples written to it, in write order, in frames of exactly the configured size, except one shorter last frame on Close, which also closes the underlying writer. A failing underlying write is reported to the caller and loses at most the frame that failed: everything buffered behind it is kept and forwarded later. Writes by concurrent callers stay contiguous. The in-memory PCM buffer and frame writers likewise collect every sample of each write made before Close exactly once, contiguous and in order, and nothing written after it. The adapter to media-sample writers hands on each write as exactly one sample of the configured duration holding its own copy of the data.",
 ["schedules","fault_sequences","inputs"],
 "all chunk sizes and frame sizes, failures of the underlying writer at any frame (including repeatedly and at close), concurrent writers and closer",
 "The test writes a fixed sequence into a writer that never fails.",
 ["buffers.go","pcm.go"],
 [("pending buffer and deferred trim","buffers.go frameBuffer.flush"),("collecting writers","pcm.go")],
 ["frames at the underlying writer","returned errors"])

p("C13","Switch writer routes each sample to exactly one attached writer",
 "A sample written to a switch goes to exactly one writer that was attached at some moment during the call, or nowhere if at some moment during the call none was attached or the switch was disabled; it is never duplicated and never reaches a writer after a swap away from it has completed before the call began. Swap hands back the previously attached writer exactly once (so every writer ever attached is closed exactly once by its owner or by Close), attached writers of another sample rate are resampled transparently, and the sample rate can be set only once.",
 ["schedules","histories"],
 "all interleavings of writers, swaps, enable/disable and close from several callers",
 "Tests swap sequentially from one goroutine.",
 ["media.go","resample.go"],
 [("atomic pointer and flags","media.go SwitchWriter")],
 ["writes and closes observed at each attached writer","values returned by Swap/Get"])

p("C14","RTP session delivers each stream's packets intact, in order, unmixed",
 "Every well-formed datagram of at most 1500 bytes is delivered, header (including extensions) and payload exactly as received, to the stream of its SSRC, in arrival order and at most once; a new stream is announced exactly once per new SSRC; malformed or oversized datagrams are ignored without disturbing the session. A packet may be discarded only if at least ten packets of that stream are waiting unread, and reading one stream neither blocks nor corrupts another. Concurrent RTP writes each produce exactly one whole datagram.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of the accepting task, several stream readers and writers, all packet contents including header extensions, CSRCs and padding, network duplication, reordering, corruption and oversize",
 "There is no unit test for the plain RTP session under concurrency; the zero-copy hand-off race needs a specific interleaving of reader and acceptor.",
 ["rtp/session.go"],
 [("demultiplexing by SSRC","rtp/session.go AcceptStream"),("zero-copy hand-off / pending queue","rtp/session.go readStream.write/ReadRTP"),("write buffer under lock","rtp/session.go writeStream.WriteRTP")],
 ["packets returned by ReadRTP","datagrams at the connection"],[("hdr/payload/recv/copied","hand-off slot and pending queue of a stream","rtp/session.go readStream")])

p("C15","Closing an RTP session releases every blocked caller",
 "Once a session is closed (by any caller, any number of times, concurrently, also after its connection failed), Close returns and every blocked or later AcceptStream and stream read returns rather than hanging or panicking (a read at most hands out packets received before, then fails), and the connection is closed exactly once. When the connection fails, AcceptStream returns an error. Nothing is written into a caller's buffer after its read has returned.",
 ["schedules","crash_points","fault_sequences"],
 "close at every point of accept, hand-off and read, connection errors at any read, several readers per session, traffic continuing while closing",
 "No test closes a session while readers and the acceptor are active.",
 ["rtp/session.go"],
 [("closed fuse and its watch channel","rtp/session.go session.Close/AcceptStream"),("select on closed","rtp/session.go readStream.write/ReadRTP")],
 ["completion of AcceptStream/ReadRTP/Close in bounded simulated time"])

p("C16","SRTP session delivers only authentic packets, once, intact, and closes cleanly",
 "With matching keys, a packet read from an SRTP session is exactly (header, extensions and payload) one the peer wrote, delivered at most once and to the stream of its SSRC, however the network drops, duplicates, reorders, corrupts, truncates or forges datagrams (a forged SSRC may be announced, but nothing is delivered on it); packets sent over a network without such faults are all delivered. Every write produces a datagram that differs from the plaintext, and Close returns and releases every blocked accept, read and write.",
 ["schedules","inputs","fault_sequences","crash_points"],
 "all fault sequences on the datagram path, all four protection profiles with and without MKI, concurrent streams and close at any instant",
 "Tests only exchange a few packets over a perfect in-memory connection.",
 ["srtp/srtp.go"],
 [("session wrapper and stream reads","srtp/srtp.go session/readStream"),("key mapping","srtp/srtp.go NewSession, sdp/offer.go SelectCrypto")],
 ["packets returned by ReadRTP vs. packets written by the peer"])

p("C17","Offer/answer over unreliable signalling never yields a mismatched call",
 "Whenever an offer and an answer that arrive intact over signalling that loses, duplicates, reorders and delays messages are both accepted, the two ends agree: same audio codec and payload type and DTMF type, each side's remote address is the other's advertised one, and either both use no encryption or each side's sending keys are the other's receiving keys with the same profile. Such an exchange is accepted if the ends have a codec in common and compatible encryption policies. A side that requires encryption never accepts a call without it, one that forbids it never uses it, a key whose parameters (length, lifetime, key identifier) are malformed is never taken up, and no received text, however corrupted, truncated or replayed, makes parsing or negotiation panic.",
 ["inputs","fault_sequences","configurations"],
 "all encryption policies and codec enablement on both sides, loss/duplication/stale replay/corruption/truncation of either message, answers paired with a retransmitted offer",
 "Tests feed well-formed SDP samples to one side at a time; cross-side agreement and corrupted input are not exercised.",
 ["sdp/offer.go","sdp/helpers.go","sdp/codecs.go","rtp/codecs.go","srtp/srtp.go"],
 [("codec and crypto selection","sdp/offer.go SelectAudio/SelectCrypto"),("answer and apply","sdp/offer.go Offer.Answer/Answer.Apply"),("parsing","sdp/offer.go Parse/ParseMedia/parseSRTPProfile")],
 ["MediaConfig on both sides","an SRTP exchange using both configurations"])

p("C18","RTP mux routes every packet to the handler registered for its type",
 "A packet is passed exactly once, unmodified, to the handler that was registered for its payload type (or the default if none) at some moment during the call, and to no other; with neither it is dropped without error. Registration, replacement, removal and default changes may happen concurrently with traffic and with printing the mux, a handler may itself (re)register handlers, and the handler's error is returned to the caller.",
 ["schedules","histories"],
 "all interleavings of packet handling, registration of static and dynamic types, removal, default changes and String; handlers that re-enter the mux",
 "Tests register first and then handle sequentially.",
 ["rtp/mux.go"],
 [("handler table under RW lock","rtp/mux.go HandleRTP/Register/SetDefault")],
 ["calls observed by each handler"])

p("C19","File and dump writers persist exactly the written samples or report failure",
 "If every write and the close of a file writer report success, the file contains exactly the concatenated samples; whatever happens, its content is a prefix of that stream and any I/O error that lost data is reported by a later write or by Close. The underlying file is closed exactly once, also after errors, and a dump writer, once its dump file was created, passes every sample on to the wrapped writer even when the dump file fails. Samples written by several tasks at the same time are stored whole, each task's in its order.",
 ["fault_sequences","crash_points","inputs"],
 "I/O errors, short and torn writes and full disk at any byte, on write, flush and close; crash after any operation; any sample sizes",
 "No test injects an I/O error.",
 ["media.go","dump.go"],
 [("buffered writer with flush on close","media.go fileWriter"),("fan-out","media.go MultiWriter, dump.go DumpWriter")],
 ["bytes on the simulated disk","errors returned by WriteSample/Close"])

p("C20","WebM writer output is readable and complete, and I/O failures are reported",
 "After a successful Close the WebM stream parses and contains exactly the written samples in order, with the track parameters given and timestamps advancing by the sample duration, for any duration of recording. An I/O failure of the underlying writer never crashes the process or hangs the caller: some later write or the Close reports it, what was stored is a prefix of the fault-free stream, and Close always closes the underlying writer and ends all background work.",
 ["schedules","fault_sequences","crash_points","inputs"],
 "all interleavings of the caller with the library's background writer, I/O errors and short writes at any byte, slow writers, close at any point, recordings longer than a cluster",
 "Tests write a short clip to memory without failures.",
 ["webm/writer.go","opus/opus.go"],
 [("block writer","webm/writer.go writer"),("background interleaver and marshaller","github.com/at-wat/ebml-go/mkvcore (real code, rewritten)")],
 ["bytes at the underlying writer","errors from WriteSample/Close","live tasks after Close"])

p("C21","UDP port-range listening returns a free port in range or fails honestly",
 "Listening in a port range succeeds whenever some port of the range is free and stays free, returns a socket bound to a port inside the range on the requested address (IPv4 or IPv6), tries each port at most once, and reports the dedicated failure only if every port was in use. Any other bind error is returned as it is, an empty range fails, a zero range picks an ephemeral port, and no socket is leaked; concurrent callers never receive the same port.",
 ["schedules","inputs","configurations","fault_sequences"],
 "all ranges (including degenerate and out-of-bounds), all sets of occupied ports, bind errors at any attempt, concurrent allocators and releases, both entry points",
 "The test binds a few real ports; occupied sets, races and bind errors other than in-use are not explored.",
 ["rtp/listen.go"],
 [("random start and circular probing","rtp/listen.go bindRange")],
 ["bind calls seen by the simulated network stack","returned connection/error"])

p("C22","Streaming resampler conserves duration for any chunking and closes safely",
 "However a stream is cut into chunks, the resampler's total output after Close equals input length × output rate / input rate within a bounded number of samples that does not grow with the length of the stream, while streaming the output lags the input by a bounded amount, and a steady signal comes out undistorted: nothing is dropped or repeated at chunk boundaries. It keeps accepting data after a failing downstream write, reporting the error; concurrent writes and Close are safe, writes after Close fail, and Close always closes the downstream writer.",
 ["schedules","fault_sequences","inputs"],
 "all rate pairs used by the codecs, all chunkings (including one sample at a time and varying sizes), downstream errors at any frame, concurrent writers and close",
 "Tests resample one clip with one fixed chunk size.",
 ["resample_soxr.go","resample.go"],
 [("output sizing and frame emission","resample_soxr.go resampleWriter.WriteSample/flush, soxrResampler.Resample")],
 ["sample counts at the downstream writer","returned errors"])

p("C23","Opus decoding survives corrupted input and channel changes",
 "A stream of Opus packets of any valid duration (2.5 to 120 ms), damaged in transit (lost, corrupted, truncated, empty), never crashes the decoder or the process: up to five consecutive undecodable packets are skipped silently, a sixth is reported, and any good packet resets the count. Each successfully decoded packet yields exactly one downstream write with the packet's duration in the requested channel count, also when the sender switches between mono and stereo, and downstream errors are returned to the caller.",
 ["fault_sequences","inputs","histories"],
 "all sequences of good, corrupted, truncated and empty packets, mono/stereo switches at any point, downstream failures",
 "Tests decode one file of good packets.",
 ["opus/opus.go","pcm.go"],
 [("decoder reset and error budget","opus/opus.go decoder.WriteSample/resetForSample"),("channel conversion","pcm.go MonoToStereo/StereoToMono")],
 ["PCM frames downstream","errors returned by WriteSample"])

p("C24","Fan-out writer reaches every branch and reports errors",
 "Each sample written to a multi-writer is offered exactly once to every branch, in branch order and unmodified, even if earlier branches fail, and an error is returned if and only if some branch failed; Close closes every branch exactly once under the same rule.",
 ["fault_sequences","schedules","inputs"],
 "all subsets of failing branches at any write or close, any number of branches including none, concurrent writers",
 "No test has a failing branch.",
 ["media.go"],
 [("loop over all branches","media.go MultiWriter")],
 ["writes and closes observed at each branch"])

p("C25","RTP receive pipeline ends with its source and releases its resources",
 "Reading an RTP source in a handling loop passes every packet to the handler once and in order, returns the first read or handler error, and closes the handler exactly once however it ends. With a jitter stage in between, packets reach the inner handler in sequence order without duplicates, errors of the inner handler surface on a later packet, and closing stops the stage: its timer and background task end and at most one packet, already in progress, is delivered afterwards. A packet behind a gap waits at most the stage's 60 ms latency past the newest arrival ahead of it.",
 ["schedules","fault_sequences","crash_points"],
 "all arrival patterns and reader errors, handler errors at any packet, timer expiry racing reads and close",
 "Tests do not exercise HandleLoop with failing readers or handlers, nor the jitter handler's shutdown.",
 ["rtp/rtp.go","rtp/jitter.go","jitter/buffer.go"],
 [("handling loop with deferred close","rtp/rtp.go HandleLoop"),("jitter stage and error hand-over","rtp/jitter.go jitterHandler")],
 ["handler calls","returned error","live tasks after the loop"])

p("C26","End to end, a call carries audio and DTMF in both directions despite the network",
 "After two endpoints negotiate over signalling and exchange G.711 or G.722 audio and DTMF over a lossy, duplicating, reordering, jittery datagram network (plain or encrypted), the receiver obtains, in order and at most once, frames that are exactly those sent (through codec, sequence writer, session, mux, jitter buffer), every digit whose packets arrive is decoded once per event timestamp, and loss of audio is bounded by what the network lost or delayed beyond the jitter latency. When both ends hang up, all tasks end and all sockets are closed.",
 ["schedules","fault_sequences","configurations","crash_points"],
 "all network fault sequences, stalls, codecs and encryption policies, hang-up by either side at any time; bounded liveness after faults stop",
 "No test wires the components together.",
 ["sdp/offer.go","rtp/session.go","rtp/rtp.go","rtp/jitter.go","rtp/mux.go","srtp/srtp.go","mixer/mixer.go","dtmf/dtmf.go","g711/g711.go","g722/g722.go"],
 [("all of the above in composition","whole pipeline")],
 ["decoded PCM frames and DTMF events at the receiver, live tasks and open sockets at the end"])

p("C27","Concurrent use of the library's shared types is free of data races",
 "The types that several goroutines of a media application share - jitter buffer, mixer and its inputs, RTP sequence writer and streams, RTP and SRTP sessions with their read and write streams, RTP mux, in-memory pipe, switch writer, re-chunking and PCM buffer writers, streaming resampler, WebM writer, receive loop - may be called from different goroutines at once in the ways they offer (concurrent pushes, writes, reads, statistics, reconfiguration, close). Whatever the interleaving, no two conflicting accesses to the same memory happen without a synchronisation that orders them under the Go memory model and no map is used concurrently.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all interleavings of the concurrent calls that every other property's workload makes, with stalls, slow and failing writers, losses and closes at any point; every memory access of the library's own code is checked for order against the previous conflicting ones",
 "The test suite drives most of these types from one goroutine, and is not run with concurrent closers, reconfigurations or statistics readers; a race that the run does not hit leaves no trace.",
 ["jitter/buffer.go","mixer/mixer.go","rtp/rtp.go","rtp/session.go","rtp/mux.go","rtp/jitter.go","srtp/srtp.go","pipe.go","media.go","buffers.go","pcm.go","resample_soxr.go","webm/writer.go"],
 [("mutexes, atomics, channels and fuses of each type","jitter/buffer.go, mixer/mixer.go, rtp/*.go, srtp/srtp.go, pipe.go, media.go, buffers.go, pcm.go, resample_soxr.go, webm/writer.go")],
 ["every load and store of the library's packages, ordered by a happens-before relation built from the simulated synchronisation operations"])

p("C28","Codec adapters are transparent and independent of one another",
 "Every encoder and decoder of the library (G.711 mu-law and A-law, G.722, Opus; used directly or through the RTP codec registry's EncodeRTP and DecodeRTP) turns each written frame into exactly one downstream write (or RTP packet), holding what the codec makes of that frame after the earlier frames of the same chain, whatever sizes the frames have, whatever other chains of any codec do at the same time, and also after downstream failures, each of which is returned by the write that met it. A frame the codec cannot encode is refused with an error and nothing is written. The caller's memory is neither changed nor used after the call, and the frame handed downstream does not change until the downstream write returns. A decoder whose target has another sample rate delivers the decoded audio resampled to it. Switching the debugging dumps on changes none of this, and the dumps hold what went through the chains. Close closes the downstream writer exactly once and returns its error.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all sequences of frames of any size, up to four chains of all codecs running concurrently, slow and failing downstream writers, all interleavings",
 "Tests encode or decode one clip on one goroutine with writers that never fail.",
 ["g711/alaw.go","g711/ulaw.go","g722/g722.go","opus/opus.go","rtp/codecs.go","rtp/rtp.go"],
 [("encoder and decoder state and buffers","g711/alaw.go, g711/ulaw.go, g722/g722.go, opus/opus.go"),("EncodeRTP, DecodeRTP, MediaStreamOut, MediaStreamIn","rtp/codecs.go, rtp/rtp.go")],
 ["frames and packets behind each chain against independent references (G.711 tables, a private G.722 or Opus codec, an undisturbed encoder)","errors returned","caller's memory"])

# ---- not applicable: pure functions
p("C40","G.711 and G.722 codecs are faithful to their tables",
 "Encoding and decoding a sample with mu-law or A-law yields the ITU table values, and decode(encode(decode(x))) = decode(x).",
 ["inputs"],"all byte and sample values","Tests cover sample clips, not all values.",
 ["g711/ulaw.go","g711/alaw.go","g711/g711.go","g722/g722.go"],[("lookup tables","g711/*.go")],["encoded bytes / decoded samples"])
p("C41","Ring buffer is a bounded FIFO",
 "A ring buffer returns elements in insertion order and keeps the newest ones when over-filled, for any mix of single and bulk operations.",
 ["inputs","histories"],"all operation sequences","Tests cover fixed sequences.",["ring/buffer.go"],[("indices and full flag","ring/buffer.go")],["values read"])
p("C42","DTMF event codec and tone generator are exact",
 "Decoding an encoded DTMF event returns it, and generated tones have the requested frequencies, amplitude and continuous phase.",
 ["inputs"],"all events, frequencies and offsets","Tests cover a few.",["dtmf/dtmf.go","tones/tones.go"],[("Encode/Decode, Generate","dtmf/dtmf.go, tones/tones.go")],["bytes / samples"])
p("C43","Codec registry reflects registrations and enablement",
 "Lookup by name or payload type and the offered codec list reflect exactly the registered and enabled codecs.",
 ["inputs","configurations"],"all registration and enable/disable sequences made during program initialisation","Tests cover the built-in codecs.",["codecs.go","sdp/codecs.go","rtp/codecs.go"],[("global tables","codecs.go")],["CodecByName, OfferCodecs"])
p("C44","Well-formed SDP is parsed to its meaning",
 "Parsing a well-formed SDP yields the address, codecs, DTMF type and crypto profiles (key, salt, MKI, lifetime) that it states.",
 ["inputs"],"all well-formed session descriptions","Tests cover samples.",["sdp/offer.go","sdp/helpers.go"],[("Parse","sdp/offer.go")],["Description"])
p("C45","Embedded resources decode to complete audio",
 "Reading an embedded or supplied Ogg file yields all of its audio frames at the requested rate.",
 ["inputs"],"all Ogg files","Tests read the embedded files.",["res/embed.go"],[("ReadOggAudioFile","res/embed.go")],["frames"])
with open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
