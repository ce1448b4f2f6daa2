import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Hex byte strings: encode/decode is an exact inverse, bad input is rejected",
"Every byte string encodes to \"0x\" followed by exactly two lowercase hex digits per byte, and decoding that text (either prefix case, any digit case; as plain string, text, JSON string or GraphQL string) yields exactly those bytes again. Any input that lacks the prefix, has an odd number of digits, contains a non-hex character, or is not a JSON string is rejected with the error kind that names that fault, without panicking and without changing the destination. Empty plain strings are rejected, while an empty text or JSON string decodes to zero bytes.",
["inputs"],"all byte strings and all input texts, valid or malformed, through every decoding entry point",
"The existing hexutil tests sample a few dozen fixed strings; the round-trip and the rejection rule quantify over all byte strings and all texts.",
["common/hexutil/hexutil.go","common/hexutil/json.go"],
[("Encode/Decode","common/hexutil/hexutil.go"),("Bytes marshalling, UnmarshalFixed*","common/hexutil/json.go"),("checkText/mapError","common/hexutil")],
["return values and errors of the exported functions","json.Marshal/Unmarshal of hexutil.Bytes"])

p("C02","Hex quantities: canonical encoding, exact value, range and form checks",
"Every unsigned integer encodes to \"0x\" plus the minimal lowercase hex digits (zero is \"0x0\", negative big integers carry a leading minus), and decoding it through any entry point (plain, text, JSON, GraphQL) returns exactly that number. A number with leading zeros, no digits, no prefix, a non-hex digit, or a value that exceeds the target (64 bits for machine integers, 256 bits for big integers) is rejected with the error kind naming that fault, and the destination keeps its old value. In the text and JSON forms only, the empty string is accepted as zero.",
["inputs"],"all integers up to and beyond the width limits and all texts, through every decoding entry point",
"The existing tests use a fixed table of literals; word boundaries, the exact width limits and error classification range over all digit strings.",
["common/hexutil/hexutil.go","common/hexutil/json.go"],
[("DecodeUint64/DecodeBig/checkNumber","common/hexutil/hexutil.go"),("Uint64, Uint, Big unmarshalling","common/hexutil/json.go")],
["return values and errors","json.Marshal/Unmarshal of Uint64, Uint, Big"])

p("C03","Fixed-size hashes and addresses: every representation agrees",
"A 32-byte hash or 20-byte address survives every representation exactly: bytes, hex, text, JSON, JSON map key, big integer, database value and GraphQL string, with or without prefix where the type says so. Building one from bytes, a hex string or an integer keeps the rightmost bytes when too long and left-pads with zeros when too short. Parsing (text, JSON, GraphQL, database scan) accepts only input of exactly the right length and alphabet; anything else is an error that leaves the destination unchanged. Hashes generated for testing/quick are valid, vary and depend on the seed only.",
["inputs"],"all 20/32-byte values, all byte strings and integers of any length, and all input texts and scanned values",
"Existing tests check single addresses and a handful of JSON strings; the agreement of representations is over all values and the rejection rule over all texts.",
["common/types.go","common/bytes.go","common/hexutil/json.go"],
[("SetBytes / BytesTo* / HexTo* / BigTo*","common/types.go"),("Scan, Value, UnmarshalGraphQL","common/types.go"),("UnmarshalFixedText/JSON/UnprefixedText","common/hexutil/json.go")],
["public methods of Hash, Address, UnprefixedHash, UnprefixedAddress"])

p("C04","Addresses print with the EIP-55 checksum and preserve original casing",
"The hex form of any address is its 40 digits with exactly those letters in upper case that EIP-55 (Keccak-256 of the lowercase digits) demands, for every printing path and format verb that prints text, while %x/%X print plain lower/upper-case digits with 0x/0X only under '#', %d prints the byte array, and any other verb gives fmt's bad-verb note with the digits; hashes format the same way with plain lowercase digits. A mixed-case address accepts exactly the strings that are valid hex addresses, reports the checksum valid exactly when the original text equals the EIP-55 form, and keeps the original text when re-marshalled (with an 0x prefix). The hex-address predicate accepts exactly 40 hex digits with an optional 0x/0X prefix.",
["inputs"],"all addresses and hashes, all casings of their hex text, all format verbs and flags, and arbitrary strings",
"The existing checksum tests cover six addresses; per-letter casing depends on every nibble of a hash of the address.",
["common/types.go"],
[("checksumHex/Format","common/types.go"),("MixedcaseAddress","common/types.go"),("IsHexAddress","common/types.go")],
["fmt output, Hex(), String(), MarshalJSON, ValidChecksum"])

p("C05","Byte-slice helpers: pad, trim, copy and hex conversion obey their laws",
"Left/right padding yields the original bytes plus zeros on the named side with length max(len, requested), trimming removes exactly the leading/trailing zero bytes, and a copy is equal but never aliases its source; none of them modifies its input. Bytes to hex and back is the identity, hex text is accepted with an optional 0x/0X prefix and an implied leading zero nibble when odd, fixed-length conversion keeps the rightmost bytes or left-pads. Parsing \"hex or string\" returns the decoded bytes for 0x-prefixed input, the raw bytes for unprefixed input, and an error for malformed or empty input.",
["inputs"],"all byte slices (nil, empty, with spare capacity), all lengths and all strings",
"Existing tests check one slice per helper; the laws range over all lengths, contents and prefixes.",
["common/bytes.go"],
[("LeftPadBytes, RightPadBytes, Trim*, CopyBytes","common/bytes.go"),("FromHex, Hex2Bytes, Hex2BytesFixed, ParseHexOrString","common/bytes.go")],
["return values, input slices and their backing arrays after the call"])

p("C06","256-bit integer arithmetic matches its mathematical definition",
"For all integers: reduction to 256 bits is the value modulo 2^256 (two's complement for negatives), the signed reading of a 256-bit value lies in [-2^255, 2^255) and is congruent to it, and exponentiation equals base^exponent modulo 2^256 without changing its arguments. Big-endian serialisation into n bytes left-pads to at least n bytes and never drops value bytes, the 256-bit serialisation is always exactly 32 bytes, reading into a zeroed buffer fills it with the low-order bytes zero-extended, and indexing byte i of the n-byte padded form returns that byte or zero out of range. Minimum, maximum, power and lowest-set-bit return the mathematically right answer, and published constants keep their values.",
["inputs"],"all non-negative and negative integers of any size, exponents, pad lengths, buffer sizes and byte indices",
"The existing tests check a table of values; word-size boundaries, the sign boundary 2^255 and aliasing of arguments range over all integers.",
["common/math/big.go","common/big.go"],
[("U256/S256/Exp","common/math/big.go"),("PaddedBigBytes, U256Bytes, ReadBits, Byte","common/math/big.go"),("BigMin/BigMax/BigPow/FirstBitSet","common/math/big.go")],
["return values and argument values after the call"])

p("C07","256-bit integer text parsing accepts exactly decimal or 0x-hex within range",
"Parsing a 256-bit integer from unsigned text returns exactly the number written, in decimal or in hex after 0x/0X (leading zeros allowed, empty text is zero), and rejects anything that is not such a number or needs more than 256 bits. The hex-or-decimal type writes minimal 0x-prefixed hex and the decimal type plain decimal, and both read back (text or JSON string) exactly what they wrote; a rejected text is an error and leaves the destination unchanged. Nil values write zero.",
["inputs"],"all non-negative integers around and beyond 2^256 (negative ones too in decimal) and all texts over digits, prefixes, signs and junk",
"Existing tests use around twenty literals; the value law is over all integers and the rejection rule over all texts.",
["common/math/big.go"],
[("ParseBig256","common/math/big.go"),("HexOrDecimal256, Decimal256","common/math/big.go")],
["returned value/ok, MarshalText/UnmarshalText, encoding/json"])

p("C08","Clocks: timers fire exactly when due, in order, once, and never after Stop",
"On the simulated clock, advancing time by d moves Now by exactly d and runs every scheduled callback or timer due by then, in order of due time, exactly once, and none that is later or was stopped; timer channels carry the due time. Stop reports true exactly when it prevented a pending firing, Reset re-arms a timer relative to the current time whether or not it has fired, the number of active timers is exactly the number pending, and waiting for n timers returns as soon as at least n are pending. Timers of the system clock follow the same fire/stop/reset contract.",
["histories","schedules"],"all interleaved sequences of AfterFunc, NewTimer, After, Stop, Reset, Run (including callbacks that schedule or stop timers), Sleep and WaitForTimers from several goroutines",
"Existing tests run four fixed scripts; heap order with many equal or rescheduled deadlines only breaks in particular histories.",
["common/mclock/simclock.go","common/mclock/mclock.go"],
[("timer heap with indices","common/mclock/simclock.go"),("Run","common/mclock/simclock.go"),("systemTimer","common/mclock/mclock.go")],
["Now, ActiveTimers, callback log, timer channels, Stop results"],
[("scheduled timers","pending events ordered by due time","common/mclock/simclock.go")])

p("C09","Alarm: never misses or delays the earliest scheduled deadline",
"After any sequence of scheduling calls and clock advances, whenever the clock reaches the earliest deadline scheduled since the alarm last fired or was stopped, the alarm's channel holds a notification, and the channel never blocks the clock nor holds more than one (a deadline that an earlier one superseded may cause a further notification). Scheduling a deadline in the past fires without any further delay. Stop cancels the pending deadline and drains the channel, so no notification arrives afterwards until the alarm is scheduled again.",
["histories"],"all sequences of Schedule (past, equal, earlier, later deadlines), clock advances, receives and Stop",
"The existing tests run two fixed scripts; reuse of the pending timer depends on the order of deadlines relative to now.",
["common/mclock/alarm.go"],
[("schedule's reuse rule","common/mclock/alarm.go"),("send","common/mclock/alarm.go")],
["alarm channel, simulated clock"],
[("deadline","earliest pending deadline","common/mclock/alarm.go")])

p("C10","Feeds deliver each value once to exactly the current subscribers",
"For any history of subscribe, unsubscribe and send, a send delivers its value exactly once to every channel subscribed at that time (once per subscription when a channel is subscribed several times) and to no other, returns the number of deliveries, and each subscriber sees values in send order. After unsubscribing, nothing more is delivered on that subscription, its error channel is closed, and unsubscribing again is harmless; the same holds for the generic and the reflective feed. A wrong channel or value type panics with a type error and leaves the feed fully usable.",
["histories","inputs"],"all histories of subscribe/unsubscribe/send over several channels with different capacities, duplicate subscriptions, and well- and ill-typed values",
"Existing tests use fixed subscriber counts and one order of removal; the case list and the inbox only go wrong for particular histories.",
["event/feed.go","event/feedof.go"],
[("sendCases/inbox lists","event/feed.go"),("remove","event/feed.go, event/feedof.go"),("type check","event/feed.go")],
["received values per channel, Send result, Err channel"],
[("inbox","subscriptions not yet merged","event/feed.go"),("sendCases","active select cases","event/feed.go")])

p("C11","Feeds stay live and exact under concurrent send, subscribe and unsubscribe",
"While senders block on slow subscribers, any other goroutine may subscribe, unsubscribe or receive, in any order, without deadlock: an unsubscribe always returns and releases a sender blocked only on that subscriber, and a send returns once every remaining subscriber took the value. With every subscription on its own channel, each one present for the whole send gets that value exactly once, a subscription removed during the send gets it at most once, and the returned count equals the number of deliveries. Concurrent senders are serialised: all subscribers present throughout observe the same order.",
["schedules","histories"],"all interleavings of senders, receivers, subscribers and unsubscribers, including unsubscribe during a blocked send and self-unsubscribe from a receiver",
"The existing concurrency tests use a few fixed topologies and real-time races; which select case is active when an unsubscribe arrives depends on the schedule.",
["event/feed.go","event/feedof.go"],
[("sendLock/removeSub hand-off","event/feed.go"),("deactivate/shrink of cases during Send","event/feed.go, event/feedof.go")],
["deliveries per subscription, Send results, goroutine liveness"])

p("C12","Type mux delivers each event to exactly the live subscribers of its type",
"A posted event reaches every subscription that lists the event's dynamic type (a subscription lists at least one) and was created before the post, exactly once and in post order, and no other subscription; post returns only after each of them received it or was unsubscribed. After a subscription is unsubscribed or the mux stopped its channel is closed, it receives nothing more, and it reports itself closed; unsubscribing or stopping twice is harmless. After stop, posts return the mux-closed error and new subscriptions are closed from the start; listing a type twice in one subscribe call panics.",
["histories","schedules"],"all histories of subscribe, post, receive, unsubscribe and stop over several event types and several concurrent posters and receivers",
"Existing tests run a few fixed scripts and a stop race; delivery during concurrent unsubscribe/stop depends on the interleaving.",
["event/event.go"],
[("subm copy-on-write lists","event/event.go"),("closewait/deliver","event/event.go")],
["subscription channels, Post result, Closed()"])

p("C13","Function subscriptions run their producer once and end cleanly exactly once",
"The producer function starts exactly once, its quit channel closes when (and only when) Unsubscribe is called while it runs, and that call returns only after the producer returned. A producer error reaches the error channel exactly once if and only if the producer ended by itself before Unsubscribe, after which the channel is closed in every case. Unsubscribe is idempotent, callable from several goroutines and after the producer ended, and never deadlocks.",
["schedules","histories"],"all interleavings of producer return (with or without error), Unsubscribe calls and error reads",
"The two existing tests check one order each; the end conditions depend on who finishes first.",
["event/subscription.go"],
[("funSub","event/subscription.go")],
["error channel, quit channel, goroutine liveness"])

p("C14","Resubscription keeps at most one live subscription and always can be stopped",
"The resubscriber calls its function again after the inner subscription fails with an error or an attempt fails, passing on the last subscription error, with each quickly failing attempt followed by a pause that starts at a fifth of the given maximum and doubles up to the maximum, while an attempt that failed only after longer than the maximum is followed by a tenth of it; it ends, closing its error channel, when the inner subscription ends without error or Unsubscribe is called. At most one inner subscription is live at a time and every inner subscription obtained is unsubscribed, including one that arrives while Unsubscribe is in progress. Unsubscribe always returns, cancels the context of a running attempt, stops further attempts, and is harmless when repeated or after the subscription ended by itself.",
["schedules","fault_sequences","histories"],"all sequences of attempt outcomes (error, success, slow, late success), inner failures, and the moment of Unsubscribe",
"The three existing tests exercise one failure script each; unsubscribe can arrive in any of four internal states.",
["event/subscription.go"],
[("resubscribeSub.loop/subscribe/waitForError/backoffWait","event/subscription.go")],
["calls of the resubscribe function, contexts, inner Unsubscribe calls, error channel, fake time"])

p("C15","Subscription scope: close ends every tracked subscription, count is exact",
"The scope's count equals the number of tracked subscriptions not yet unsubscribed through their handle, closing it unsubscribes each of those once, drops the count to zero, and makes later tracking return nothing without touching the subscription. Unsubscribing a handle unsubscribes the underlying subscription and forwards its error channel; repeating it or closing twice is harmless. This holds from several goroutines at once, with no subscription left live once a close has returned, and a handle that takes its time to end does not keep others from using the scope.",
["histories","schedules"],"all histories of track, handle unsubscribe, close and count from several goroutines",
"There is no existing test of tracking after close or of concurrent close and unsubscribe.",
["event/subscription.go"],
[("SubscriptionScope","event/subscription.go")],
["Count, Unsubscribe calls seen by underlying subscriptions"])

p("C16","Keccak digests equal the standard for every length and chunking",
"The 224-, 256-, 384- and 512-bit digests equal legacy Keccak of the concatenated input for every message and every way of splitting it into writes, and so does the one-shot 256-bit helper. Taking a sum appends the digest to the given slice, leaves the hash state unchanged so writing can go on, and never alters the prefix bytes; reset returns to the initial state. Size and block size are the standard values and write always reports all bytes written.",
["inputs","histories"],"all messages across several block boundaries, all chunkings, and all interleavings of Write, Sum and Reset",
"Nothing tests this package today; block, lane and chunk alignments multiply far beyond any table.",
["crypto/sha3/sha3.go","crypto/sha3/keccakf.go","crypto/randentropy/rand_entropy.go"],
[("Write/unalignedAbsorb/pad/squeeze","crypto/sha3/sha3.go"),("permutation","crypto/sha3/keccakf.go")],
["Sum output, Size, BlockSize, caller slices"])

p("C17","Koblitz curve arithmetic is the elliptic-curve group law",
"On each of the four curves the published parameters form a valid curve whose base point has the published prime order. Addition, doubling and scalar multiplication agree with the affine group law for all points, including equal points, inverse points and the point at infinity (written (0,0)), results stay on the curve, and scalar multiplication by k of any length depends only on the integer k, agrees between base-point and general form, and is additive in k. The on-curve test accepts exactly the solutions of the curve equation, and no operation changes its arguments.",
["inputs"],"all curves, points (incl. infinity, P+P, P-P), coordinates and scalars of any byte length incl. those at and beyond the group order",
"Nothing tests this package today; the special cases of the group law are measure-zero among random points.",
["crypto/curve.go"],
[("addJacobian/doubleJacobian/affineFromJacobian","crypto/curve.go"),("ScalarMult","crypto/curve.go"),("curve constants","crypto/curve.go")],
["returned coordinates, argument values after the call, IsOnCurve"])

p("C18","Key generation and point encoding are exact and fail cleanly",
"A generated key pair uses exactly the entropy read from the given source, its private key has the curve's byte length, its public key is that scalar times the base point and lies on the curve; if the source fails, the error is returned and no public key is. Points marshal to 0x04 followed by both coordinates left-padded to the curve's byte length, and unmarshalling returns exactly those coordinates and nothing for any other length or tag. The system entropy reader fills every requested byte and always reports full reads.",
["inputs","fault_sequences"],"all curves, entropy streams (short reads, errors at any point), coordinates with leading zeros, and byte strings",
"Nothing tests this package today; short reads, error positions and leading-zero coordinates need generation.",
["crypto/curve.go","crypto/randentropy/rand_entropy.go"],
[("GenerateKey","crypto/curve.go"),("Marshal/Unmarshal","crypto/curve.go"),("randEntropy.Read","crypto/randentropy/rand_entropy.go")],
["returned key, bytes consumed from the reader, marshalled bytes"])

p("C19","Mnemonic words encode and decode hex losslessly",
"Any hex message whose length is a multiple of eight digits encodes, by the published (Electrum) scheme, to three dictionary words per eight digits and decodes back to exactly the same message in lower case; distinct messages give distinct word lists. Every word comes from the published list, whose words are all distinct, and index lookup returns the position of a word or -1.",
["inputs"],"all hex messages of any multiple-of-8 length, all 32-bit groups",
"Nothing tests this package today; modular wrap-around depends on each 32-bit group.",
["crypto/mnemonic.go","crypto/mnemonic_words.go"],
[("MnemonicEncode/MnemonicDecode","crypto/mnemonic.go"),("word list","crypto/mnemonic_words.go")],
["returned words and message"])

p("C20","Log lines: every record is exactly one parseable line, nothing injected",
"For any record, the logfmt format yields one line that parses back to exactly the record's time (to the second), level, message and context pairs in order, and the terminal format one line with level, time, message and the same pairs (up to line breaks in its message), whatever bytes occur in messages, keys or values: quoting prevents any of them from forging other fields or lines. A non-string key is reported under the error key without losing its neighbours. Padding, colour codes and caller locations change only whitespace, escape codes and the location part.",
["inputs","histories"],"all records: messages, keys and values of every supported type with arbitrary strings, number of pairs, colours, origins on/off, and prior records (padding state)",
"The existing format tests check a few values; escaping must hold for every rune and padding depends on earlier lines.",
["log/format.go"],
[("LogfmtFormat/TerminalFormat/logfmt","log/format.go"),("escapeString/escapeMessage","log/format.go"),("fieldPadding","log/format.go")],
["formatted bytes"])

p("C21","Numbers in logs are exact, with thousands separators in the right places",
"Every integer (signed, unsigned, big; any width) is logged with exactly its decimal digits and sign; from six digits on wide integers carry a comma before every third digit from the right and shorter ones none, and removing the commas gives back the number. 8- and 16-bit integers carry no separators; floating-point numbers are printed with three decimals and booleans as true/false. The standalone integer formatters agree with the formatting inside records.",
["inputs"],"all int64/uint64/big integers including minimum values, all small integer types, floats and booleans",
"The existing tests check a table of values around powers of ten; signs, digit counts and conversions range over all integers.",
["log/format.go"],
[("formatLogfmtUint64, formatLogfmtBigInt","log/format.go"),("formatLogfmtValue","log/format.go")],
["FormatLogfmtInt64/Uint64 and LogfmtFormat output"])

p("C22","JSON log formats always emit one valid JSON document per record",
"For any record the JSON formats emit one valid JSON object holding the time, level and message under the record's key names and every context pair: in the plain format as individual members (numbers and strings as such, everything else as text), in the ordered format as the ordered list of keys and formatted values. Line-separated output ends in exactly one newline and is otherwise free of raw newlines unless pretty-printed. A record JSON cannot represent (such as NaN) yields a well-formed object naming the error, a non-string key is named under the error key, and nil pointers yield a placeholder, never a panic.",
["inputs","configurations"],"all records with arbitrary strings and value types, and all combinations of pretty and line-separated",
"No existing test covers the JSON formats.",
["log/format.go"],
[("JSONFormatEx, JSONFormatOrderedEx","log/format.go"),("formatJSONValue/formatShared","log/format.go")],
["formatted bytes parsed as JSON"])

p("C23","Loggers: inherited context, levels and handlers are exact and isolated",
"A record logged through any logger carries its level, message and the context of its ancestors followed by its own and the call's pairs, in order; maps expand to their pairs, and an odd argument list is completed with nil and an error marker. Contexts are isolated: children, siblings, parents and callers' slices never affect each other, and setting a handler redirects that logger and those descendants that have not set their own, only. Level names map to levels and back, and logging through the package-level functions works (records are dropped) before any handler is set.",
["histories","inputs"],"all trees of loggers built by New with any contexts, interleaved with logging at any level and handler changes",
"Existing tests cover no logger trees; aliasing of context slices only shows for particular lengths and orders.",
["log/logger.go","log/root.go","log/handler_go14.go"],
[("newContext/normalize","log/logger.go"),("swapHandler","log/handler_go14.go"),("root logger","log/root.go")],
["records received by handlers"])

p("C24","Log handlers route each record exactly as their combinators say",
"A tree of handlers passes each record to exactly the leaves its filters, level filters, key matches, fan-outs and failovers imply, in order, with the record's content unchanged except for documented additions (caller, function, stack, failover errors, evaluated lazy values). A failover uses the first handler that succeeds and returns the last error only if all fail; a fan-out always reaches all; filters return no error for dropped records. Lazy values are evaluated once at the lazy handler, and invalid ones become an error value plus an error marker instead of a panic.",
["programs","inputs","fault_sequences"],"all handler trees, records, matching keys and values, handler failures and lazy functions",
"Existing tests cover no handlers; the routing quantifies over trees and failures.",
["log/handler.go"],
[("Filter/MatchFilter/LvlFilter/Multi/Failover/Lazy/Caller* handlers","log/handler.go")],
["records and errors observed at leaf handlers"])

p("C25","Log output handlers write whole records in order, once, under concurrency",
"A stream, file or network handler writes each record's formatted bytes once and contiguously, in call order per goroutine, even when many goroutines log at once and handlers are swapped concurrently; a synchronised handler never runs its inner handler twice at the same time, and goes on working after a panic of it. Buffered and channel handlers deliver every record exactly once in order, blocking rather than dropping when full. Write errors are returned to the caller and an opened file is appended to, never truncated; opening failures are returned as errors. Lazy values are evaluated before their record's turn to be written comes, so they may log through the same handler. A syslog handler sends each record once with its level's severity, and trace records, which have none, not at all.",
["schedules","fault_sequences","histories"],"all interleavings of logging goroutines, slow or failing writers, buffer sizes and handler swaps",
"Existing tests cover no output handlers; loss or tearing needs particular schedules and faults.",
["log/handler.go","log/handler_go14.go","log/syslog.go"],
[("StreamHandler/SyncHandler/FileHandler/NetHandler","log/handler.go"),("BufferedHandler/ChannelHandler","log/handler.go"),("swapHandler","log/handler_go14.go"),("SyslogHandler","log/syslog.go")],
["bytes written, records received, returned errors"])

p("C26","Verbosity and per-module filters select exactly the right call sites",
"A record passes the glog handler exactly when its level is at most the global verbosity or at most the level of the first per-module rule whose pattern matches the call site's file, where rules name a file, a directory (with or without wildcards) or a file suffix, and non-positive levels are ignored; the decision is independent of caching and of earlier records, and changes immediately when verbosity or rules change, also when the wrapped handler changes them while it handles a record. Malformed rule sets and trace locations return an error and leave the previous filter in force. A record logged at the requested trace location is treated as an info-level record with a stack dump appended to its message; all others pass unchanged.",
["histories","configurations","inputs"],"all sequences of verbosity changes, rule sets (valid and malformed), trace locations and log calls from several files and packages",
"No existing test covers the glog handler; the call-site cache makes the outcome depend on history.",
["log/handler_glog.go"],
[("Vmodule rule compilation and matching","log/handler_glog.go"),("siteCache","log/handler_glog.go"),("BacktraceAt","log/handler_glog.go")],
["records received by the wrapped handler, returned errors"],
[("siteCache","cached level per call site","log/handler_glog.go")])

p("C27","RLP struct tags: fields are filtered and validated exactly by the rules",
"Processing a struct's fields keeps exactly the exported fields not marked ignored, in order, each with its decoded tag settings. An unknown tag, a nil tag on a non-pointer, a tail on anything but the last exported slice field, tail together with optional, or a required field after an optional one is an error naming the field; everything else is accepted. The default nil encoding of a type is the empty string for unsigned integers, booleans, strings and byte arrays or slices, and the empty list for everything else.",
["inputs"],"all lists of fields (exported or not, any kind and element type) with any combination and order of tags",
"No existing test covers the package; tag combinations and positions multiply beyond a table.",
["rlp/internal/rlpstruct/rlpstruct.go"],
[("ProcessFields/parseTag","rlp/internal/rlpstruct/rlpstruct.go"),("DefaultNilValue","rlp/internal/rlpstruct/rlpstruct.go")],
["returned fields, tags and errors"])

p("C28","Generated RLP code encodes and decodes every value as RLP reflection would",
"For every struct type the generator accepts, the generated source is gofmt-clean Go that compiles, its encoder writes exactly the canonical RLP encoding of each value (fields in order, ignored fields skipped, trailing zero optional fields omitted, nil pointers by their nil kind), and its decoder reads back an equal value and rejects malformed or mistyped input with an error. Unsupported types and invalid tags are reported as errors, never as wrong code. Only the requested methods are generated.",
["programs","inputs"],"all struct types over supported field types, nesting and tags, and all values of them, plus unsupported types",
"The existing generator tests do not even start in this tree; types, tags and values multiply beyond golden files.",
["rlp/rlpgen/gen.go","rlp/rlpgen/types.go","rlp/rlpgen/main.go"],
[("make*Op / genWrite / genDecode","rlp/rlpgen/gen.go"),("nonZeroCheck/typeReflectKind","rlp/rlpgen/types.go")],
["generated source compiled against an RLP runtime, encoded bytes, decoded values"])

p("C29","Compiler output: contracts are extracted completely, old and new format",
"Parsing combined compiler output returns exactly one entry per contract with its code and runtime code prefixed by 0x, its hashes, source maps, metadata and the caller-supplied source and version strings, and the ABI and documentation as structured values, identically whether these arrive as JSON text (old format) or embedded JSON (new format). Malformed JSON or embedded text that is not JSON yields an error and no contracts.",
["inputs"],"all sets of contracts with arbitrary names, code, ABIs and docs, in both formats, and corrupted documents",
"No existing test covers the parser; the fallback between formats depends on the document.",
["common/compiler/solidity.go","common/compiler/helpers.go"],
[("ParseCombinedJSON","common/compiler/solidity.go"),("ParseCombinedJSONV8","common/compiler/solidity.go")],
["returned contracts and error"])

p("C30","Human-readable sizes, times, paths, notices and JSON load errors are right",
"Storage sizes print with two decimals in the largest binary unit they exceed, pretty durations print the exact duration with at most three fractional digits (truncated), and pretty ages print the greedy decomposition into years (360 d), months (30 d), weeks, days, hours, minutes and seconds, cut to the three largest non-zero units (\"0\" below one second). Loading a JSON file fills the value or returns an error that names the file and, for syntax errors, the line on which the error lies. Joining a file name to a data directory keeps absolute names and otherwise gives the cleaned joined path, and the existence test is true for every existing path and false when the path does not exist. Deprecation notices put any one-line text in a box that fits it, and bug reports show all their arguments, the call site and the stack on standard error.",
["inputs"],"all sizes, durations, times, paths, and JSON documents with an error at any position",
"One existing size test checks five values; rounding, thresholds and line counting range over all inputs.",
["common/size.go","common/format.go","common/test_utils.go","common/path.go","common/debug.go"],
[("StorageSize","common/size.go"),("PrettyDuration/PrettyAge","common/format.go"),("LoadJSON/findLine","common/test_utils.go"),("AbsolutePath/FileExist","common/path.go")],
["returned strings and errors"])

p("C31","Command test harness: expectations match exactly the child's output",
"An exact expectation succeeds if and only if the child's next output equals the rendered template, consuming exactly that much, and otherwise fails naming the first mismatch or the missing rest; a regular-expression expectation returns exactly the submatches of the first match. Input lines reach the child, all remaining output is returned by reading to the end, exit expectations fail on unmatched output, and exit status and error text reported are those of the child. A child that makes an expectation wait for more than 5 s is killed, a slow one is not.",
["programs","histories","inputs"],"all scripts of child outputs, inputs, exit codes and expectations, matching or not",
"The package has no tests and did not compile in this tree.",
["internal/cmdtest/test_cmd.go"],
[("Expect/matchExactOutput/ExpectRegexp","internal/cmdtest/test_cmd.go"),("Output/ExpectExit/ExitStatus/StderrText","internal/cmdtest/test_cmd.go")],
["outcome of expectations, returned data"])

p("C32","RPC block numbers and hashes parse exactly their documented forms",
"A block-number parameter accepts exactly the five named tags and 0x quantities that fit in 63 bits, yields exactly that block, and writes back a form that parses to the same block. A block-number-or-hash parameter accepts those, a 32-byte 0x hash, or an object with exactly one of the two (and the canonical flag); both together, malformed or out-of-range input is an error.",
["inputs"],"all numbers, tags, hashes, objects and malformed JSON parameters",
"The rpc package is unfinished in this tree, does not compile, and has no tests.",
["rpc/types.go"],
[("BlockNumber.UnmarshalJSON/MarshalText","rpc/types.go"),("BlockNumberOrHash.UnmarshalJSON","rpc/types.go")],
["decoded values and errors"])

p("C33","RPC services expose exactly the suitable methods and call them faithfully",
"Registering a receiver exposes exactly its exported methods with at most one result plus an optional trailing error, under namespace_lowerCamelName, splitting subscriptions from calls; lookups of anything else find nothing, and receivers without suitable methods or name are refused. A call passes the receiver, the context if wanted, and all arguments in order, returns the method's result or error, and turns a panicking method into an internal error instead of crashing.",
["programs","inputs"],"all receiver types, method signatures, registrations under the same or different names, and call arguments",
"The rpc package is unfinished in this tree, does not compile, and has no tests.",
["rpc/service.go"],
[("suitableCallbacks/newCallback","rpc/service.go"),("callback.call","rpc/service.go"),("serviceRegistry","rpc/service.go")],
["lookup results and call results"])

p("C34","RPC messages are classified and answered per JSON-RPC 2.0",
"Every decoded message is exactly one of call, notification, response or invalid, according to its version, id, method, params, result and error members, and classification survives re-encoding. Responses echo the request's id and carry either the marshalled result or the error's message, code and data; a result that cannot be marshalled becomes an error response.",
["inputs"],"all JSON-RPC messages over present/absent members and id forms, and all results and errors",
"The rpc package is unfinished in this tree, does not compile, and has no tests.",
["rpc/json.go","rpc/errors.go"],
[("isNotification/isCall/isResponse","rpc/json.go"),("response/errResponse/errorMessage","rpc/json.go")],
["classification and encoded messages"])

p("C35","RPC subscription ids are unpredictable quantities; notifications keep order",
"Subscription ids are 0x quantities of up to 128 random bits without leading zeros, and independently started generators do not repeat each other's ids. Notifications sent before activation are buffered and delivered after it in order, and later ones directly, each carrying the subscription's id, namespace and payload; the client side forwards notifications to its channel in order without blocking the connection, until unsubscribed, failed, closed or overflowed (20000 waiting values); then nothing more is forwarded, the error is reported once, and, unless the connection ended, the server is asked once to unsubscribe.",
["histories","schedules","inputs"],"all histories of create, notify, activate, write failure, receive and unsubscribe",
"The rpc package is unfinished in this tree, does not compile, and has no tests.",
["rpc/subscription.go"],
[("randomIDGenerator/encodeID","rpc/subscription.go"),("Notifier","rpc/subscription.go"),("ClientSubscription.forward","rpc/subscription.go")],
["ids, written messages, received values"])
p("C36","RPC connections: replies reach their requests, closing ends everything once",
"A response is handed once to exactly the request that registered its id, unknown, answered or removed ids are ignored, and a subscription starts only if the server accepts it, its notifications then arriving in order. Closing a connection ends every other pending request and held subscription once with the given error, waits for running calls, then cancels the connection's context and ends the served subscriptions with that error; a call's context ends with the call. A served subscription can be unsubscribed once by its id. A batch is answered by one message with the answers in order and timeout errors for the calls left. A server that is stopped closes the connections it tracks, takes no more and reads no request; a request that cannot be read is answered with a parse error. Log records about a response name the connection's remote address and the request id.",
["histories","schedules","inputs"],"all histories of requests, responses, notifications, subscribe and unsubscribe calls, timeouts, connection loss and server stops",
"The rpc package is unfinished in this tree, does not compile, and has no tests; most of it is about histories and schedules.",
["rpc/handler.go","rpc/client.go","rpc/server.go"],
[("handlerImmediate/handleResponse/handleSubscriptionResult","rpc/handler.go"),("close/cancelAllRequests/cancelServerSubscriptions/unsubscribe","rpc/handler.go"),("batchCallBuffer","rpc/handler.go"),("Server.trackCodec/Stop/serveSingleRequest","rpc/server.go")],
["request channels and errors, subscription channels, written messages, closed connections"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=[q for q in x['statement'].replace('e.g.','').split('. ') if q]
    if len(n)>3: print(x['id'],len(n))
print(len(P))
