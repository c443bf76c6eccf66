#!/usr/bin/env python3
# Regenerates properties.jsonl from the table below (kept as code so that it stays readable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Written messages parse back to the same message",
 "Any correctly-sized client or server message that safe code can build (any tags, source, command or numeric, arguments with or without a long last argument), once written, is exactly one line that parses to an equal message, whatever writer is used (blocking send, async send, tokio codec).  Reading that line back yields the same tags, source, kind and argument bytes.",
 ["inputs"],"all messages whose parts are drawn from every byte class the string types permit, up to the stated sizes",
 "tests write and re-parse a handful of fixed messages; the claim is for every constructible message, including odd bytes, empty values and unusual combinations of parts",
 ["src/ircmsg/codec.rs","src/ircmsg/client.rs","src/ircmsg/server.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/source.rs"],
 [("write_to / parse","src/ircmsg/codec.rs"),("Args long-argument flag and colon","src/ircmsg/args.rs"),("Tags escaping","src/ircmsg/tags.rs")],
 ["ClientMsg/ServerMsg Display, parse, send_to, Encoder"])
p("C02","Message parsing is total and follows the IRC grammar",
 "Parsing any byte line as a client or server message terminates without panicking and either reports an error or yields exactly the message that the IRC message grammar assigns to that line (optional tags, optional source, command or three-digit numeric, space-separated arguments, optional trailing argument introduced by a colon).  Whenever parsing succeeds, writing the result and parsing it again gives an equal message.",
 ["inputs"],"all byte lines over the structural alphabet up to the stated length, and all lines assembled from the stated fragments",
 "tests parse about ten well-formed lines; malformed and adversarial lines come from the network and their number is unbounded",
 ["src/ircmsg/codec.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs","src/ircmsg/source.rs","src/ircmsg/servermsgkind.rs","src/ircmsg/numeric.rs","src/string/splitter.rs"],
 [("parse","src/ircmsg/codec.rs"),("Tags::parse, Args::parse, Source::parse, Numeric::from_bytes","src/ircmsg/")])
p("C03","String types accept exactly the bytes they promise",
 "A value of a restricted string type (NUL-free, line, word, argument, command, tag key, target, nickname, username) is obtained from bytes without `unsafe` exactly when those bytes satisfy that type's documented rule, whichever safe conversion is used (from bytes, slices, strings, literals, other string types, parsing, splitting or transformation).  The value holds exactly the given bytes, or the documented transformation of them.",
 ["inputs"],"every byte string up to the stated length for every type and every safe route",
 "tests try three types with a few literals; the guarantee that makes message injection impossible is over all byte strings and all routes",
 ["src/string/subtypes.rs","src/string/subtypes/macros.rs","src/string/subtypes/impls.rs","src/string/splitter.rs","src/string/tf.rs"],
 [("find_invalid / IS_INVALID tables","src/string/subtypes.rs"),("conversion macros","src/string/subtypes/macros.rs")])
p("C04","Tag values survive escaping unchanged",
 "Inserting any NUL-free value under any key into message tags and reading it back, directly or after writing and re-parsing, yields the same value; the escaped form contains no space, semicolon, CR, LF or NUL.  Decoding any raw tag value follows the IRCv3 unescaping rules: the five named escapes, a backslash before any other byte is dropped, and a lone trailing backslash is dropped.",
 ["inputs"],"all values over the alphabet of special and ordinary bytes up to the stated length",
 "tests cover a couple of fixed values; the rules are about every position and adjacency of backslashes",
 ["src/string/tf/escape.rs","src/ircmsg/tags.rs"],[("escape, unescape","src/string/tf/escape.rs"),("Tags::get, Tags::parse","src/ircmsg/tags.rs")])
p("C05","Message framing does not depend on how bytes arrive",
 "Reading messages from a connection yields the same sequence of messages and the same error regardless of how the byte stream is cut into reads, and regardless of would-block, interrupted or pending results in between, for the blocking, asynchronous and tokio-codec readers.  Lines end at LF with optional CR, blank lines are skipped, a line over the size limit is reported as such rather than truncated, and end of stream inside a line is reported as an error (an unexpected end of file, or the tokio codec framework's own report) and never as a message.",
 ["inputs","schedules","fault_sequences"],"all ways of cutting the stated byte streams into reads, and all placements of would-block/interrupt/pending/EOF/error answers up to the deviation bound",
 "tests feed whole lines in one read; the cuts and retries are decided by the network",
 ["src/ircmsg/codec.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/conn.rs","src/error.rs"],
 [("read_owning_from / read_borrowing_from","src/ircmsg/codec.rs"),("MsgIo, BufReadTimeout","src/client/conn/")])
p("C06","Keyed collections behave as maps under any edit sequence",
 "Message tags, name maps (capabilities, ISUPPORT tokens) and the client's shared state hold, after any sequence of insertions, lookups, removals, clears and iterations (through edit guards), exactly the last value inserted for each key that was not removed since; an edit guard that is leaked may lose edits but leaves a collection in which every key is present at most once.  No operation panics, corrupts memory, or leaves a key present twice.",
 ["histories"],"all operation sequences over the stated keys up to the stated depth",
 "tests insert two or three keys once; defects need a particular mix of inserts and removes within one edit",
 ["src/util/flatmap.rs","src/ircmsg/tags.rs","src/names.rs","src/client/state.rs"],
 [("FlatMap, FlatMapEditGuard","src/util/flatmap.rs")])
p("C07","UTF-8 knowledge about byte strings is always truthful",
 "Whenever a byte string claims to be UTF-8 or ASCII (offers a `str` view without validation), its bytes really are valid UTF-8, respectively ASCII, however the string was produced: construction, slicing, splitting with rewinding, building by pushes, transformation, lossy conversion or concatenation.  The text view equals the bytes, and string types compare, order and hash consistently with their bytes.",
 ["histories","inputs"],"all sequences of splitter/builder/transform operations over strings mixing ASCII, multi-byte and invalid bytes up to the stated depth",
 "tests use ASCII; a wrong claim is undefined behaviour that only shows for particular cuts through multi-byte text",
 ["src/string/bytes.rs","src/string/splitter.rs","src/string/builder.rs","src/string/tf.rs","src/string.rs"],
 [("EncodingHint tracking","src/string/bytes.rs, src/string/splitter.rs, src/string/builder.rs")])
p("C08","Secrets stay secret through every derivation",
 "A byte string marked secret never shows its contents when formatted or logged, and every string derived from it by cloning, sharing, taking ownership, type conversion, slicing, transformation, escaping, base64 or lossy decoding is secret too; messages containing secrets do not show them in debug output.  Writing to the wire is unaffected.",
 ["histories","inputs"],"all sequences of derivation operations up to the stated depth from every representation of a secret string",
 "tests check one construction and one empty string; the flag must survive every chain of operations",
 ["src/string/bytes.rs","src/string/base64.rs","src/string/builder.rs","src/string/splitter.rs","src/string/tf.rs","src/client/auth/secret.rs"],
 [("secret flag propagation","src/string/bytes.rs")])
p("C09","Shared strings are memory-safe across threads",
 "Cloning, sharing, converting to owned vectors and dropping copies of the same byte string from several threads never reads freed memory, frees twice or leaks, and every thread always sees the original contents; converting to an owned vector takes the storage over only when no other copy can still read it.",
 ["schedules"],"all interleavings of 2-3 threads with 1-3 operations each up to the preemption bound, plus the release/acquire ordering of every free",
 "tests are single-threaded; the unsound interleavings need a preemption between a count read and its use",
 ["src/util/thinarc.rs","src/string/bytes.rs"],[("ThinArc reference count","src/util/thinarc.rs")])
p("C10","Secret buffers are an exact, overflow-free and zeroing vector",
 "After any sequence of operations (creation from vectors or with capacity, push, append, reserve, clear, reading from a stream, conversion into a string), a secret buffer holds exactly what a plain byte vector would; it never touches memory outside its allocation, never takes more bytes from a reader than asked for, and any memory it releases or abandons holds none of the secret bytes.",
 ["histories","fault_sequences"],"all operation sequences up to the stated depth and capacity, with every short-read answer of the reader",
 "tests never inspect memory outside the slice or after release",
 ["src/string/secretbuf.rs","src/util/ownedslice.rs"],[("OwnedSlice growth","src/util/ownedslice.rs"),("zeroing in drop/reserve/clear","src/string/secretbuf.rs")])
p("C11","One-shot channels deliver exactly once or close, and never leak",
 "For every interleaving of sending, cloning and dropping senders with receiving or dropping the receiver: at most one value is delivered, it is the value of a send that reported success, every other value is dropped exactly once, and the shared storage is freed exactly once and never used afterwards.  A receive after a completed successful send returns the value, and the channel reports closed only when no further value can arrive, and always once the receiver is gone or a value was sent.",
 ["schedules"],"all interleavings of 2-3 threads with 1-3 operations up to the preemption bound",
 "tests use sleeps to force two particular orders",
 ["src/client/handler/channel/oneshot.rs"],[("sender count, flags and atomics","src/client/handler/channel/oneshot.rs")])
p("C12","Parking never loses a wakeup and never wakes early",
 "A thread that parks on a channel's parker resumes once the paired unparking sender has sent a value or has been dropped, in every interleaving, and does not resume before that, even when the thread receives unrelated wakeups; nobody touches the parked thread's data after it resumed.  A receive following the park sees the sent value.",
 ["schedules"],"all interleavings of parker and unparker threads, with spurious wakeups injected, up to the preemption bound",
 "tests use sleeps to force four particular orders",
 ["src/client/handler/channel/parker.rs"],[("Parker::park / Unparker::drop handshake","src/client/handler/channel/parker.rs")])
p("C13","The send queue never exceeds its rate limit and never stalls",
 "At any instant the queue releases a message only when the configured burst and delay permit it, for every history of pushes, pops, resets and rate-limit changes; whenever it withholds a message it reports the exact positive time after which that message becomes available.  With messages queued and enough time elapsed a message is always released.",
 ["histories"],"all sequences of queue operations and clock advances up to the stated depth and rate configurations",
 "tests have none for the queue's timing; the limit is a property of whole histories of operations and clock readings",
 ["src/client/queue.rs"],[("Queue::pop delay accounting","src/client/queue.rs")])
p("C14","Queued messages are sent once, in order, adjusted and labelled",
 "Messages leave the queue exactly once and in the order they were queued, changed only by the configured adjusters, edits and labels; on each incoming message every adjuster is asked whether to adjust, and those that agree see every queued message exactly once, in queue order, and may change or drop it.  With labelling on, every message gets a label distinct from all labels the same labeller gave before; resetting removes queued messages and the labeller, resets the adjusters, and keeps the rate limit.",
 ["histories"],"all sequences of queue, edit, adjust and label operations up to the stated depth",
 "no existing test exercises queue edits, adjusters or labels",
 ["src/client/queue.rs"],[("QueueEditGuard, Adjuster, labeler","src/client/queue.rs")])
p("C15","The client run loop delivers every message to every live handler",
 "For every history of adding and finishing handlers, resets and incoming messages, each message is given exactly once to each handler live when it arrived, handler ids are unique among live handlers, each run returns as soon as a message makes a handler yield or finish and reports exactly the ids that yielded and those that finished, and handlers that finish or are reset are dropped.  Everything in the send queue that the rate limit permits is written, in order, before waiting for input and before returning, a client without handlers writes its whole queue, and the blocking and asynchronous loops behave the same.",
 ["histories","schedules"],"all histories of handler additions, removals, yields and finishes over the stated number of handlers and messages",
 "tests run one handler at a time",
 ["src/client/handler.rs","src/client/logic.rs","src/client.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs"],
 [("Handlers::handle with swap_remove","src/client/handler.rs"),("ClientLogic::run_once","src/client/logic.rs")])
p("C16","Connection registration follows the IRCv3 protocol",
 "Against every server behaviour, registration sends the opening burst once, requests only capabilities the server offered and the user asked for, ends capability negotiation at most once and only after pending requests and authentication settled, and falls back through the configured nicknames.  It reports success only after the welcome and the end of the MOTD, with the nick and account the server confirmed, and never reports success when required authentication did not succeed.",
 ["histories","configurations"],"all server reply sequences over the stated alphabet up to the stated depth, for each configuration",
 "tests replay three fixed transcripts",
 ["src/client/register/handler.rs","src/client/register.rs","src/client/register/defaults.rs","src/client/cap.rs"],
 [("registration state machine","src/client/register/handler.rs")])
p("C17","SASL authentication is exchanged correctly and fails safely",
 "Against every server behaviour, SASL tries the configured mechanisms in order, restricted to those the server advertised, sends each mechanism's exact payload as base64 in chunks of at most 400 bytes with a terminating plus when needed, and succeeds only after the server confirmed success.  A failed mechanism is followed by the next one, a mechanism the server implements wrongly is aborted and not tried again, and when mechanisms are exhausted the exchange ends in an error; credentials are never sent under the wrong mechanism or to a server that did not ask for them.",
 ["histories","configurations"],"all server reply sequences over the stated alphabet up to the stated depth, for each list of mechanisms",
 "tests only check the initial response of one mechanism",
 ["src/client/auth/handler.rs","src/client/auth.rs","src/client/auth/sasl/password.rs","src/client/auth/sasl/external.rs","src/client/register/handler.rs"],
 [("SASL handler state machine","src/client/auth/handler.rs")])
p("C18","Chunked base64 encoding and decoding are inverse",
 "For every byte string and chunk size that is a multiple of four, the chunk encoder produces standard base64 in chunks of exactly the maximum size followed by one shorter chunk (a plus sign when that would be empty), reports its remaining length exactly, and the decoder fed those chunks returns the original bytes.  The decoder rejects invalid input rather than returning wrong bytes.",
 ["inputs"],"all payload lengths around the chunk boundaries with all byte patterns of the stated alphabet, and all chunk sizes",
 "tests use three payloads",
 ["src/string/base64.rs"],[("ChunkEncoder / ChunkDecoder","src/string/base64.rs")])
p("C19","Nickname generators yield exactly the documented nicknames",
 "Every nickname generator yields only valid nicknames, in the documented order: sequential suffixing yields each of its suffixes' values once (at most 255, at least one), random suffixing yields only characters in the documented ranges, and a chain yields each part to exhaustion before the next.  A nick reported invalid is not suggested again by the generator that can only produce it or names starting with it, while a finite list of fixed nicks loses only that nick.",
 ["configurations","histories"],"all generator configurations built from the stated suffix kinds, strategies and seeds, run to exhaustion",
 "tests check two generators against two fixed outcomes",
 ["src/client/nick.rs","src/client/nick/suffix.rs"],[("Suffix, Chain, FromIter","src/client/nick.rs, src/client/nick/suffix.rs")])
p("C20","Mode sets and mode tables implement their set semantics",
 "Mode sets behave as sets of letters under every operation (insert, remove, union, intersection, difference, iteration from both ends, length, parse and print); mode type tables give every mode that appears in exactly one list that list's type and report every mode that appears in several; status-mode tables map modes and prefixes both ways and reject exactly the malformed inputs.  Parsing then printing gives back an equivalent value.",
 ["inputs","histories"],"all operation sequences over the stated letters, all quadruples of small sets, all short strings as table input",
 "tests check a couple of fixed sets",
 ["src/state/mode.rs"],[("ModeSet bit set","src/state/mode.rs"),("ModeTypes::from_sets, StatusModes::parse","src/state/mode.rs")])
p("C21","Capability and ISUPPORT listings are interpreted as specified",
 "For every capability list or ISUPPORT token line, including multi-line lists, removals and repeated tokens, the resulting table holds exactly the announced names (those that can be represented) with their last announced values, capabilities count as enabled exactly when acknowledged, token values are parsed as specified for each token, and capability requests are split into lines that each fit the message size limit and together name each requested capability exactly once.",
 ["inputs","histories"],"all token lists over the stated names and values up to the stated length, and all sets of capability lengths around the line limit",
 "one existing test parses one list",
 ["src/client/cap.rs","src/names/isupport.rs","src/names/cap.rs","src/names.rs"],
 [("ServerMsgArgs / CapLs parsing","src/client/cap.rs"),("isupport values","src/names/isupport.rs")])
p("C22","Remaining-length accounting is exact",
 "For every message, the reported number of bytes left is exactly the size limit minus the bytes the message will occupy on the wire (tags and line ending excluded, the last argument's colon always counted), including the source a server will prepend, so a message reported as fitting does fit and one more byte than reported does not; the reported number of arguments left is fifteen minus the arguments present.",
 ["inputs"],"all combinations of kinds, sources, argument counts and lengths around the limit",
 "tests check one or two messages",
 ["src/ircmsg/client.rs","src/ircmsg/server.rs","src/ircmsg/args.rs","src/ircmsg/source.rs"],
 [("bytes_left / len_bytes","src/ircmsg/")])
p("C23","The client's own source is tracked through every change",
 "After any sequence of server messages (NICK, CHGHOST, user-host replies, about us and about others), the tracked client source equals the one those messages establish and messages about other users leave it unchanged.  When our nick, username and host are all known the size reserve for our own source is exactly that source's length on the wire, and resetting the client restores the default reserve.  The tracking handler keeps running until cancelled.",
 ["histories"],"all sequences of relevant server messages up to the stated depth",
 "no existing test tracks the source",
 ["src/client/handlers/track.rs","src/client/state.rs","src/names/types.rs"],
 [("TrackClientSource","src/client/handlers/track.rs")])
p("C24","Configured I/O timeouts are enforced, and only those",
 "A blocking or asynchronous client run that receives no complete message within the configured read timeout (at least one second), counted from when it began waiting for that message, ends with a timeout or continues as the configured timeout function decides, also when bytes keep trickling in or queued messages are sent meanwhile; no read times out earlier than the configured limits allow.  A write or flush that does not complete within the configured write timeout fails with a timeout, and none fails earlier.  Removing a timeout really removes it, and timeouts never lose already received bytes.",
 ["histories","fault_sequences"],"all sequences of timeout changes, partial reads and clock advances up to the stated depth",
 "no existing test involves time",
 ["src/client/conn/time.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs","src/client/logic.rs"],
 [("TimeLimits, TimeLimitedSync, TimeLimitedTokio","src/client/conn/time.rs")])
p("C25","Pings are answered and sent pings are matched exactly",
 "Every PING from the server is answered by exactly one PONG carrying the same payload (its last argument), whatever else is interleaved; CTCP VERSION and SOURCE replies are sent only for matching queries that arrive as PRIVMSG from a known sender, and only to the asker.  The client's own ping reports completion only for its own PONG, with the time that really elapsed.",
 ["histories"],"all sequences of server messages over the stated alphabet up to the stated depth",
 "no existing test covers handlers for PING",
 ["src/client/handlers.rs","src/client/handlers/ping.rs","src/client/handlers/autoreply.rs"],
 [("AutoPong","src/client/handlers.rs"),("Ping","src/client/handlers/ping.rs")])
p("C26","Serialisation round-trips and cannot forge invalid values",
 "Every serialisable value (strings, numerics, tags, sources, messages, secrets configuration) deserialises to an equal value, and deserialising any input never produces a string or numeric that violates its type's rule.",
 ["inputs"],"all values over the byte-class alphabet up to the stated length, and all small JSON inputs",
 "one existing test deserialises one secret",
 ["src/string/serde.rs","src/ircmsg/numeric.rs","src/client/auth/secret.rs"],[("serde impls","src/string/serde.rs")])
p("C27","Argument lists and CTCP payloads edit and convert faithfully",
 "Argument lists hold, after any sequence of edits, exactly the arguments a plain list would, with the long last argument kept last; views (first, last, splits) agree with that list.  CTCP messages convert to and from message bodies without loss, and case mapping and trimming transform exactly the documented bytes.",
 ["histories","inputs"],"all edit sequences up to the stated depth and all byte strings up to the stated length",
 "tests check a few fixed lists",
 ["src/ircmsg/args.rs","src/ircmsg/ctcp.rs","src/ircmsg/targeted.rs","src/string/tf/casemap.rs","src/string/tf/trim.rs"],
 [("ArgsEditGuard","src/ircmsg/args.rs"),("parse_ctcp / Ctcp::write_to","src/ircmsg/ctcp.rs")])
p("C28","TLS connections only reach servers the configuration trusts",
 "With the tls flag set, a connection is established only with a server that proves possession of a certificate which is valid now, is issued for the address connected to, and leads to a root among exactly those configured (Only: the given files; Default: the system's; Also: both; a pinned self-signed certificate counts as root); every such server is accepted, for TLS 1.2 and 1.3, blocking and tokio, whatever connections came before.  NoVerify alone waives this.  No byte of a message crosses the wire in the clear, and nothing is accepted from a server without TLS.  A configured client identity is presented with its whole chain to servers asking for one, or an error is reported, never silently dropped.  Both plain and TLS connections carry every message unchanged and in order, and use the timeouts set on them.",
 ["configurations","histories","inputs"],"all combinations of trust setting, system roots, server identity, host form, TLS version and connector from the stated grids, and all connection sequences up to the stated length",
 "no existing test makes a TLS connection",
 ["src/client/tls.rs","src/client/conn/sync.rs","src/client/conn/tokio.rs"],
 [("TlsConfigOptions::build, load_pem, load_client_cert, NoVerifier","src/client/tls.rs"),("ServerAddr::connect, Stream","src/client/conn/sync.rs"),("ServerAddr::connect_tokio, StreamTokio","src/client/conn/tokio.rs")])
p("C29","Values keep their contents whatever happens to what they came from",
 "A string, source, tag set, argument list or message keeps exactly its contents for as long as it lives, whatever is done to the values it was derived from, shares storage with or was copied from: dropping, editing, growing, converting them to vectors and overwriting those.  Its owning form equals the original and also survives overwriting and freeing the buffer it was read from; nothing is freed twice or leaked.",
 ["histories","inputs"],"all histories of operations on values sharing storage up to the stated depth and all owning forms of a grid of messages",
 "tests compare values while their source is still alive and unchanged",
 ["src/string/bytes.rs","src/util/ownedslice.rs","src/owning.rs","src/ircmsg/source.rs","src/ircmsg/args.rs","src/ircmsg/tags.rs"],
 [("Bytes::owning, into_vec, using_value","src/string/bytes.rs"),("OwnedSlice::into_vec_with_slice","src/util/ownedslice.rs"),("Source::owning_merged","src/ircmsg/source.rs")])
p("C30","Displayed text, kinds, numerics and addresses agree with the wire",
 "The displayed text of every message, source, tag set and argument list that is UTF-8 and not secret is exactly the text written to the wire.  Message kinds compare, order and hash exactly as their text does against texts, commands and numerics; exactly the strings of three digits are numerics, which convert to and from the integers 0 to 999 unchanged and are classified as errors as documented.  Server addresses are equal, and printed alike, exactly when host, TLS setting and effective port are.",
 ["inputs"],"all 16-bit integers, all strings up to four bytes, all messages of a grid, all pairs of a grid of addresses",
 "no existing test looks at numerics' classification or compares displayed with written text",
 ["src/ircmsg/numeric.rs","src/ircmsg/servermsgkind.rs","src/ircmsg/server.rs","src/ircmsg/tags.rs","src/client/conn.rs"],
 [("Numeric, is_error","src/ircmsg/numeric.rs"),("ServerMsgKindRaw","src/ircmsg/servermsgkind.rs"),("Display impls","src/ircmsg/tags.rs"),("ServerAddr","src/client/conn.rs")])
p("C31","Storage of secret strings is wiped before it is released",
 "Once a string is secret and owns its storage, however it came to be (constructed, loaded, cloned, sliced, transformed, encoded, part of a message or login), that storage holds none of its bytes any more when it is released after the last string sharing it is gone.  It is not wiped before: every other string sharing it keeps its contents, and an explicit conversion to a vector hands them over unchanged.",
 ["histories","inputs"],"all derivation chains and all histories of sharing, converting and dropping up to the stated depth",
 "tests never look at memory after it is released",
 ["src/string/bytes.rs","src/util/ownedslice.rs","src/client/auth/secret.rs","src/client/auth/sasl.rs"],
 [("OwnedBytes zeroing, into_vec","src/string/bytes.rs"),("LoadSecret","src/client/auth/secret.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
