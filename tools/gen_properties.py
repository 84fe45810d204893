#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for titles and statements)."""
import json, os
S = "crates/stream-download/src/"
O = "crates/stream-download-opendal/src/lib.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every byte read is the source's byte at that position",
 "For a fault-free source, every successful read of n bytes at reader position p returns exactly the source bytes p..p+n and advances the position by n, whatever the chunk sizes the source delivers (empty chunks included), the settings, the storage (memory, temporary file, adaptive, or a custom one with short reads and writes or whose writes only become visible when they are flushed), the sequence of reads and seeks so far, and the interleaving of reader and download task. A read of a non-empty buffer returns 0 only at the end of the content, and reading to the end from position p yields exactly the bytes from p to the end: nothing lost, duplicated, reordered or filled with zeros - also when the source delivers more than was asked of it or more than it announced. Data of a stream without a known length that was skipped and can't be fetched any more reads as an UnexpectedEof error, not as the end.",
 ["inputs","histories","schedules","configurations"],
 "all contents and chunkings x read/seek histories x storages x prefetch/batch settings x reader/downloader interleavings",
 "Tests read fixed files over a fast local server with a handful of seek patterns and whatever interleaving the machine happens to produce; holes, stale data and races need particular seek histories at particular moments.",
 [S+"lib.rs", S+"source/mod.rs", S+"source/handle.rs", S+"storage/mod.rs"],
 [("read/seek gating on the downloaded range set", S+"lib.rs"), ("write loop and gap tracking", S+"source/mod.rs")],
 ["Read::read and Seek::seek results of StreamDownload over a scripted SourceStream"],
 [("downloaded", "set of byte ranges already stored", S+"source/handle.rs"), ("requested position", "position a blocked reader waits for", S+"source/handle.rs")])

prop("C02", "Seek resolves, clamps and positions exactly, or fails without moving",
 "A seek from the start, from the current position or from the end returns the absolute position that std::io::Seek prescribes, limited to the content length when that is known (any target up to u64::MAX), and the next read starts at exactly that position, both for data already downloaded and for data not yet downloaded, on seekable sources and on sources that cannot seek. A seek that resolves to a negative position, or from the end when the length is unknown, returns an error, and a failed seek leaves the reader position and all later reads unaffected.",
 ["inputs","histories","schedules","configurations"],
 "all seek targets (all three forms, any signed offset) x reader histories x known/unknown length x seekable or not x interleavings",
 "Tests seek to a few fixed in-range positions; negative, overflowing, beyond-the-end and unknown-length targets in combination with arbitrary prior histories are not sampled.",
 [S+"lib.rs", S+"source/mod.rs"],
 [("absolute seek computation and clamping", S+"lib.rs"), ("seek request handling", S+"source/mod.rs")],
 ["Seek::seek / stream_position / Read::read of StreamDownload"])

prop("C03", "A read or seek always returns once the source has done its part",
 "Every read and seek call eventually returns, and neither it nor the download task panics, provided the source keeps delivering data or ends or fails: no interleaving of reader, download task, seeks (to any u64 target), prefetch, storage back-pressure, stalls and reconnects, and no source that delivers less or more than it announced, may leave the reader asleep forever. The number of steps either side takes stays finite (no livelock).",
 ["schedules","histories","inputs","configurations","fault_sequences"],
 "all interleavings of reader operations with the download task x chunkings (empty chunks, content length 0, early end) x storages x recoverable source faults",
 "A lost wake-up or deadlock needs a particular preemption point between a check and a wait; the tests run on the OS scheduler, which practically never takes it.",
 [S+"source/handle.rs", S+"source/mod.rs", S+"lib.rs"],
 [("condition variable wait/notify protocol", S+"source/handle.rs"), ("notify-read handshake", S+"source/handle.rs"), ("download loop", S+"source/mod.rs")],
 ["whether each call returns under a deterministic scheduler with virtual time"])

prop("C04", "Reads are gated by exactly the prefetch target and the requested bytes",
 "At the start, and after a seek that makes the source jump outside a prefetch phase, a read does not return data until the prefetch amount has been received from that position, the stream has ended or a bounded storage is full; after that a read waits only until the bytes it asked for (capped at the end of the content) are stored. As soon as this condition is met the call returns even if the source never delivers another byte, and a read or seek entirely inside data already downloaded returns immediately. Only a read at the very end of the content waits for the outcome of the download.",
 ["histories","schedules","configurations","inputs"],
 "all prefetch sizes x chunkings x read sizes x points at which a live source goes silent x interleavings",
 "Tests use sources that keep sending, so a reader that is woken one chunk late, or that returns before the prefetch is complete, passes; it takes a source that falls silent at exactly the boundary.",
 [S+"lib.rs", S+"source/mod.rs", S+"source/handle.rs"],
 [("prefetch phase", S+"source/mod.rs"), ("wait for requested position", S+"source/handle.rs")],
 ["which chunk deliveries precede each read's return"])

prop("C05", "Stalls, dropped connections and reconnects never corrupt the content",
 "When a source stalls past the retry timeout, yields transient error items, or fails or hangs while reconnecting, the download resumes and every byte finally read still equals the source's byte at that position, with nothing lost or repeated at the point of interruption, for every fault sequence, storage (bounded ones included), prefetch state and seek history. A stream that ends before its declared length never makes a reader receive bytes the source did not send.",
 ["fault_sequences","histories","schedules","configurations"],
 "all placements of stalls, error items, failed/hanging/successful reconnects and early ends in the byte stream x reader histories x storages",
 "The tests inject one stall or error at one point with a generous prefetch; the resume position depends on how much was buffered, written and pending at the instant of the fault.",
 [S+"source/mod.rs", S+"lib.rs"],
 [("retry timeout and reconnect at the writer position", S+"source/mod.rs"), ("pending partially written chunk", S+"source/mod.rs")],
 ["bytes returned by reads versus the scripted content; positions passed to reconnect"])

prop("C06", "A failed download is always reported and never looks like end of file",
 "When the download fails - storage write, flush or seek error, the source's seek failing, or the source's finish hook returning an error - every read or seek blocked at that moment and every later one returns an error: none hangs, and none reports end of file or data not downloaded. A download that did not fail and was not cancelled never makes a read or seek fail with a download failure, and reconnect errors or transient item errors alone are not failures.",
 ["fault_sequences","schedules","histories"],
 "all injection points of storage, seek and finish-hook errors x reader states (blocked, about to block, idle) x interleavings",
 "Tests inject a failure before reading starts or at one spot; the window between a reader's failure check and its wait needs chosen schedules.",
 [S+"source/mod.rs", S+"lib.rs", S+"source/handle.rs"],
 [("failure flag set before completion is signalled", S+"source/mod.rs"), ("failure checks around waits", S+"lib.rs")],
 ["results of reads and seeks after an injected fault"])

prop("C07", "Cancellation and drop stop the download promptly in every state",
 "Dropping the stream with cancel-on-drop set, calling cancel, or triggering its token, in any state of the download (prefetching, mid-chunk, stalled, reconnecting, seeking, or paused because a bounded storage is full), stops the background task without waiting for source or reader, and also when the source never makes it wait (endless errors, empty chunks or immediately ending responses): the finish hook runs exactly once, the source and the storage writer are released, and a reader that is blocked or comes later gets an error instead of hanging. Without cancel-on-drop a dropped stream downloads to its end, the finish hook always runs exactly once with a result and outcome that match what happened, and cancelling after completion changes nothing for the reader.",
 ["schedules","histories","configurations","fault_sequences"],
 "all moments of cancellation relative to the download's state x cancellation forms x storages x interleavings",
 "Tests cancel during a plain download; the other suspension points of the task (back-pressure, pending seek, pending reconnect) are never hit at the moment of cancellation.",
 [S+"lib.rs", S+"source/mod.rs"],
 [("cancellation token in the download loop", S+"source/mod.rs"), ("Drop implementation", S+"lib.rs")],
 ["finish-hook calls, drop of source and writer, virtual time needed, results seen by the reader"])

prop("C08", "The completion handle resolves exactly when the download task is done",
 "Waiting on a stream handle resolves after the background task has finished - by completion, failure, or cancellation - and after the source's finish hook has returned, never earlier, and it always resolves then, for any number of handles, whether taken or awaited before or after the end and even after the stream itself was dropped. Requesting cancellation alone does not resolve it before the task has actually wound down.",
 ["schedules","histories","fault_sequences"],
 "all orders of handle creation, waiting, completion, failure, cancellation and drop x duration of the finish hook",
 "Tests wait for the handle of a download that simply completes.",
 [S+"lib.rs", S+"source/mod.rs"],
 [("stream handle and completion token", S+"lib.rs")],
 ["order of handle resolution versus finish hook and release of the source"])

prop("C09", "Source requests are valid, needed, and never made when unsupported",
 "The source is asked to seek only if it supports seeking, only for non-empty ranges inside the content (or the exact end position) that start at a byte not yet stored and end at the next stored byte or the content's end (open-ended, from the wanted byte, when the length is unknown), and when the seek was prompted by the user that range starts at the first byte at or after the user's target that isn't stored yet. Reads and seeks inside downloaded data and plain sequential reading cause no request, and with a seekable source of known length and no faults no byte is fetched twice and the gaps left behind by seeks are fetched after the rest.",
 ["histories","schedules","inputs"],
 "all seek/read histories x chunkings x interleavings over seekable and non-seekable sources",
 "Tests compare final content, which hides redundant, reversed, empty or overlapping range requests.",
 [S+"source/mod.rs", S+"source/handle.rs"],
 [("should-seek decision and gap search", S+"source/mod.rs"), ("range set", S+"source/handle.rs")],
 ["log of seek_range calls and bytes delivered by the scripted source"])

prop("C10", "Completion means the whole content is stored and served locally",
 "When a download into a storage that can hold the content, over a seekable source of known length, completes (its final progress state is reported and the finish hook receives success), every byte from 0 to the content length has been stored, in spite of any seeks that skipped regions and of responses that ended early, and for a source that cannot seek or has no known length every byte it delivered has been stored. From then on every read and seek is answered from storage with the right bytes and without any interaction with the source.",
 ["histories","schedules","inputs","configurations"],
 "all histories of forward and backward seeks before completion x chunkings x interleavings x storages",
 "Tests check gap filling for a few fixed seek patterns.",
 [S+"source/mod.rs"],
 [("finish or find next gap", S+"source/mod.rs")],
 ["storage contents and source call log after the completion report"])

prop("C12", "Progress reports are truthful, ordered and end with one completion",
 "Every progress report's position is the position just behind the last byte written, its current chunk is a contiguous range that has really been stored and reaches that position or beyond it (empty when nothing is stored there), and its chunk size is the number of bytes just stored, so that over a whole download the reported sizes add up to the bytes stored. Prefetch reports carry the configured target and occur only before the prefetch completes (at the start and again after a seek restarts it), and a download that fetched everything reports completion exactly once, as its last report, while downloads that fail before that or are cancelled never do.",
 ["histories","schedules","inputs","configurations"],
 "all chunkings, prefetch and batch sizes, seek histories, outcomes and interleavings",
 "Tests check the phases of one sequential download.",
 [S+"source/mod.rs", S+"settings.rs"],
 [("progress reporting", S+"source/mod.rs")],
 ["arguments of the progress callback against the writer's log"])

prop("C13", "Reconnects happen after exactly the retry timeout, at the right position",
 "A reconnect is attempted if and only if the source has produced nothing (an error item or an empty chunk counts as something) for the retry timeout, again after each further silent retry timeout, and it is given the position of the next byte the source still has to deliver; an attempt that itself exceeds the retry timeout is abandoned and retried. The reconnect callback runs exactly once per successful reconnect, after it, and not for attempts that failed or timed out, and a source that always answers in time is never reconnected.",
 ["fault_sequences","schedules","configurations"],
 "all stall lengths around the timeout, repeated stalls, failing and hanging reconnects, storages with back-pressure",
 "The tests wait in real time for one stall; exact timing relative to the timeout needs a controlled clock.",
 [S+"source/mod.rs", S+"settings.rs"],
 [("timeout around the next item", S+"source/mod.rs"), ("reconnect handling", S+"source/mod.rs")],
 ["virtual times and positions of reconnect calls, callback calls"])

prop("C14", "The bounded buffer is an exact sliding window over the stream",
 "For any sequence of writes, reads and seeks of either side, the reader and writer of a bounded storage behave like one unbounded stream of which the reader can see only the contiguous data written since the writer last jumped and not overwritten yet (everything written, if the buffer is as large as the content): reads return exactly the bytes written at those positions, across any number of wrap-arounds, reads of overwritten positions are invalid-input errors, and a write accepts exactly as many bytes as fit without overwriting data from the reader's position onwards (0 when full). Positions reported by either side equal the number of bytes passed, and neither side panics, blocks, or uses more than the smaller of the configured size and the content length.",
 ["histories","inputs","configurations"],
 "all write/read/seek sequences x buffer sizes x inner storages",
 "Tests run one wrap pattern with a couple of sizes; index arithmetic at wrap boundaries after backward and forward seeks needs many histories.",
 [S+"storage/bounded.rs"],
 [("circular buffer index mapping and counters", S+"storage/bounded.rs")],
 ["reader/writer pair of the bounded storage against a reference model"],
 [("shared info", "read/write counters and positions", S+"storage/bounded.rs")])

prop("C15", "A bounded stream is lossless, limited in memory, and rejects what cannot fit",
 "With bounded storage of capacity c a sequential reader receives the complete content in order for any content length, chunking, batch size and read sizes up to c, while the download pauses rather than overwriting unread data, so no more than c bytes are held at any time and the download never runs more than c bytes ahead of the reader. A read with a buffer larger than c, or a seek further than c past the reader position, returns an invalid-input error and leaves the stream usable, seeks inside the retained window deliver the right bytes, and reads of data that has been overwritten are errors instead of wrong bytes. A paused download continues as soon as the reader makes room, by reading or by seeking.",
 ["inputs","histories","schedules","configurations"],
 "all capacities x chunk/batch/prefetch/read sizes x seeks x interleavings of reader and paused writer",
 "Back-pressure interacts with prefetch, partial writes and the read notification; tests cover a few size combinations on one schedule.",
 [S+"storage/bounded.rs", S+"source/mod.rs", S+"lib.rs"],
 [("partial writes and wait for read", S+"source/mod.rs"), ("capacity checks", S+"lib.rs"), ("circular buffer", S+"storage/bounded.rs")],
 ["bytes read, writer/reader distance, errors"])

prop("C16", "Adaptive storage picks the right backend and behaves like it",
 "Adaptive storage uses a bounded buffer of the configured size over the first provider when the length is unknown, the first provider sized to the content when the length is at most the configured size, and the second provider otherwise, and creates no storage in the other one. Through the adaptive wrapper every read, write and seek gives the same result as on the selected storage directly.",
 ["configurations","histories","inputs"],
 "all lengths around the threshold, none, 0 and very large x operation sequences x provider pairs",
 "Tests try one length per branch; threshold equality and equivalence for arbitrary operation sequences are not sampled.",
 [S+"storage/adaptive.rs"],
 [("choice by content length", S+"storage/adaptive.rs")],
 ["which provider is asked for what, and results against the directly constructed storage"])

prop("C17", "Memory and temp-file storage behave like one shared growable file",
 "For the memory and temporary-file storages, any interleaved sequence of writes, seeks and reads on the two halves behaves like a writer and a reader with independent positions on one growable file: written bytes are readable at once at exactly their position, later writes at the same position win, reads stop at the end of what exists, positions follow std::io semantics (for the memory storage the end is that of its allocation, if that is further), and no operation panics. A temporary file is created where and how the provider was told (directory, prefix or custom builder) and is removed when the reader is dropped.",
 ["histories","inputs","configurations"],
 "all operation sequences on reader and writer halves x initial content lengths x provider constructors",
 "Tests only use the storages through sequential downloads.",
 [S+"storage/memory.rs", S+"storage/temp.rs"],
 [("shared vector with positions", S+"storage/memory.rs"), ("two handles on a named temporary file", S+"storage/temp.rs")],
 ["results of operations against a sparse-file model"])

prop("C18", "HTTP streams deliver the resource over any server behaviour",
 "Over a real HTTP connection, with the plain client and with the middleware client, a stream delivers exactly the resource's bytes for any body size, response chunking and read/seek history, and reports content length, content type and headers as sent by the server (absent or malformed ones as unknown). This holds against servers that answer range requests and, for known lengths, those that ignore them, and when servers stall or drop the connection. Every range request uses inclusive byte bounds within the resource, and an error status - at the start, on a seek or on a reconnect - is never delivered as content.",
 ["inputs","histories","configurations","fault_sequences"],
 "all body sizes, chunkings, header sets, server range support, statuses and stall/drop points x histories",
 "Tests use one asset, one server and fixed headers.",
 [S+"http/mod.rs", S+"http/reqwest_client.rs", S+"http/reqwest_middleware_client.rs"],
 [("HTTP source stream", S+"http/mod.rs"), ("reqwest adapters", S+"http/reqwest_client.rs")],
 ["bytes read and requests received by a loopback server"])

prop("C19", "The HTTP layer maps stream calls to exactly the right client requests",
 "For any client implementation, creating a stream issues one plain request; a seek issues exactly one range request with the given start and the last byte to fetch (open-ended when no end is known), none when the target is the very end, which yields an empty stream; and a reconnect resumes with a range request from the current position if the server accepts ranges and re-requests the resource otherwise. Client errors and error responses of each of these calls are returned as errors carrying the decoded server message, and an error response's body is never streamed; missing or unparsable lengths and content types are reported as unknown.",
 ["inputs","configurations","fault_sequences"],
 "all starts/ends/lengths x Accept-Ranges values x header values x client and response failures",
 "Tests exercise this through one server with well-formed headers.",
 [S+"http/mod.rs"],
 [("client trait and HTTP source", S+"http/mod.rs")],
 ["calls received by a scripted client"])

prop("C20", "Process streams deliver the pipeline's output and leave no process behind",
 "A stream over a command or a pipeline of commands delivers exactly the bytes the last command writes, each command receiving the previous one's output, for any output sizes and timing. A download that received all of the output waits for the final command to exit before it counts as finished (its exit status is only logged); if the stream is cancelled, dropped, never used or fails, or a later command of the pipeline can't be started, every command of the pipeline is killed and reaped, and the temporary files holding error output are removed in every case.",
 ["inputs","configurations","fault_sequences","histories"],
 "all pipelines of stub commands x output sizes x exit statuses x cancellation points",
 "Tests run two fixed commands to completion.",
 [S+"process/mod.rs", S+"process/command_builder.rs", S+"async_read.rs"],
 [("spawning and piping", S+"process/command_builder.rs"), ("finish hook: wait, kill, clean up", S+"process/mod.rs")],
 ["bytes read, exit results, live processes and files in a scratch TMPDIR"])

prop("C21", "Registry routing follows priority, rule order and input kind exactly",
 "For any set of entries and rules, the registry runs the handler of exactly one entry: the first in ascending priority order (insertion order among equals) that has a rule matching the input, and none if no entry matches. A prefix rule matches raw input starting with the prefix and hands the handler the remainder (parsed again as URL or string) together with the prefix, an already parsed input carrying exactly that prefix is handed on as it is, an entry's prefix rules take precedence over its other rules, URL rules match only URLs by scheme and domain, string rules match only non-URL input, and an input converts back to the raw text it came from (URLs in their normalised form).",
 ["inputs","configurations"],
 "all registries x rules (string, regex, any) x raw and pre-parsed inputs",
 "Tests use one registry with a few inputs.",
 [S+"registry/mod.rs", S+"registry/matcher.rs"],
 [("entry selection", S+"registry/mod.rs"), ("rule matchers", S+"registry/matcher.rs")],
 ["which handler ran with which input, against a reference router"])

prop("C22", "OpenDAL streams deliver the stored object through any access pattern",
 "For any object size and chunk size, a stream over an OpenDAL operator reports the object's length (unknown when empty) and content type, yields exactly the object's bytes, and after seeking to any range or reconnecting at any position yields exactly the bytes of that range or from that position on. Used as a download source with arbitrary reads and seeks it delivers exactly the object's bytes, a missing object is a creation error, and an error of the service surfaces as an error and never as a clean end of the content.",
 ["inputs","histories","configurations"],
 "all object sizes x chunk sizes x seek/reconnect/read sequences",
 "Tests read one asset with one chunk size and a few seeks.",
 [O],
 [("OpenDAL source stream", O)],
 ["chunks yielded by the stream and bytes read through StreamDownload over the in-memory service"])

prop("C23", "Command helpers pass exactly the requested arguments to the program",
 "The generic, yt-dlp and ffmpeg command builders run the configured program with exactly the arguments asked for, unmodified and in order: the yt-dlp command gets its URL, writes to standard output, and has extraction and format options exactly when requested; the ffmpeg command reads standard input, has the requested format and extra arguments in the order given, and always ends with the standard-output target. No argument is lost, duplicated, split or interpreted by a shell.",
 ["inputs","configurations"],
 "all argument strings (spaces, quotes, unicode, empty, leading dashes) x builder call sequences",
 "Tests cannot run yt-dlp or ffmpeg offline, and use fixed arguments.",
 [S+"process/mod.rs", S+"process/yt_dlp.rs", S+"process/ffmpeg.rs", S+"process/command_builder.rs"],
 [("argument construction", S+"process/yt_dlp.rs"), ("argument insertion", S+"process/ffmpeg.rs")],
 ["argument vector received by a stub program"])

prop("C24", "Async-read streams deliver the reader's bytes and never pretend to seek",
 "A stream over any asynchronous reader delivers exactly its bytes for any fragmentation and pending pattern, reports exactly the configured content length (unknown by default), declares itself unseekable, and rejects seek and reconnect requests as unsupported without losing data. Reading, and seeking forwards or backwards, through a download over it work as on a plain file, with forward seeks waiting for the stream to catch up.",
 ["inputs","histories","schedules"],
 "all contents, fragmentations and pending patterns x read/seek histories",
 "Tests read one file.",
 [S+"async_read.rs"],
 [("async read source", S+"async_read.rs")],
 ["bytes read through StreamDownload and chunks yielded"])

prop("C25", "Initialisation either yields a working stream or the precise error",
 "Creating a stream returns the source's creation error or the storage's creation error as the matching variant, with the underlying message preserved by its display and decoded forms, and in that case starts no download and keeps neither source nor storage alive. On success the reported content length is the source's, the storage is created once with that length, settings keep exactly the values given to them, and the capacity limit enforced on reads is the provider's for that content length.",
 ["inputs","configurations","fault_sequences"],
 "all combinations of source and storage creation outcomes x lengths x settings",
 "Tests cover one failing URL.",
 [S+"lib.rs", S+"settings.rs", S+"source/mod.rs"],
 [("stream construction", S+"lib.rs"), ("settings builder", S+"settings.rs"), ("error decoding", S+"source/mod.rs")],
 ["results of the constructors, calls made to source and storage provider"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
