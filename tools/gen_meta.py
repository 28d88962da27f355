#!/usr/bin/env python3
"""Writes properties.jsonl, plan.json and MANIFEST.json (the single source of the three)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

I, H, CF, F = "inputs", "histories", "configurations", "fault_sequences"
ENC = "imap-codec/src/codec/encode.rs"
DEC = "imap-codec/src/codec/decode.rs"
PARSERS = ["imap-codec/src/command.rs", "imap-codec/src/response.rs", "imap-codec/src/core.rs", "imap-codec/src/fetch.rs",
           "imap-codec/src/body.rs", "imap-codec/src/envelope.rs", "imap-codec/src/search.rs", "imap-codec/src/flag.rs",
           "imap-codec/src/mailbox.rs", "imap-codec/src/sequence.rs", "imap-codec/src/datetime.rs", "imap-codec/src/extensions"]
FRAG = "imap-codec/src/fragmentizer.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, plan, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  plan=plan, technique=technique, note=note, observe=observe))

prop("C01", "Encoding then decoding any message gives the message back",
     "For every greeting, command, response, authenticate-data line and IDLE-done that the type constructors allow, the codec's encoding decodes completely (nothing left over) to an equal message; with the default quirks, sequence sets come back in their canonical form. Excepted are only the documented ambiguities (free text starting with '[' where no response code precedes it, and unvalidated 'other' response codes) and values nested deeper than the decoder's limit.",
     [I], "all messages of the five codecs, all extensions on, nesting within the decoder's limits",
     "The tests sample a few hundred fixed messages; a field dropped, swapped or mis-delimited for one combination of optional parts is invisible to them.",
     [ENC] + PARSERS, ["encode/decode of every message and data item type"],
     [("main", 10000000, 60000000)],
     "property-based round trip over structurally generated messages",
     "Random structured generation of every message type with edge-biased leaves; oracle is equality after decode(encode(m)). Sampled, not exhaustive. Assumes derived PartialEq.")
prop("C02", "Whatever a decoder accepts re-encodes stably",
     "If a decoder accepts some bytes as a message, encoding that message yields bytes that the same decoder accepts completely as an equal message (sequence sets up to canonical form), and encoding that again yields identical bytes.",
     [I], "all byte strings the five decoders accept, in particular unusual spellings and slightly damaged messages",
     "Tests check chosen wire forms; the accepted language (alternative spellings, quirks, near misses) is far larger than what they list.",
     [ENC, DEC] + PARSERS, ["decoders construct values through unvalidated constructors; encoders must cover everything decoders accept"],
     [("main", 10000000, 60000000)],
     "mutation-based fuzzing with a decode-encode-decode fixpoint oracle",
     "Inputs are valid messages in random spellings with 0..3 byte/token mutations. Oracle is the fixpoint; does not say that what is accepted should have been (C20, C23 do).")
prop("C03", "Decoders are total: no panic, no stack overflow, bounded work on any input",
     "Every decoder, given any byte string, returns a message or an error: it never panics, aborts or overflows the stack of a standard thread, however deep the nesting. The memory held and the work done stay in proportion to the length of the input, and what was decoded can be encoded, printed and dropped.",
     [I], "all byte strings, including deep nesting, huge numbers and truncated or garbled messages",
     "Robustness against hostile input is about every byte string; the tests use a few dozen bad inputs.",
     [DEC] + PARSERS, ["recursion limits in search keys, body structures, body extensions, threads", "unwrap/expect/unvalidated in parsers"],
     [("main", 2000000, 12000000)],
     "fuzzing (mutated, soup and deeply nested inputs) with crash, allocation and determinism oracles",
     "Runs on 2 MiB stacks with debug assertions and overflow checks on; peak memory and allocation count are measured by a counting allocator against linear bounds. A hang is reported as an error of the run, not as a violation.")
prop("C04", "Partial input is incomplete; bytes after a message are left alone",
     "For every proper prefix of a valid message the decoder asks for more (incomplete, or a literal to be acknowledged): it neither fails nor returns a message early. For a complete message followed by any bytes, it returns that same message and exactly the following bytes as remainder.",
     [I, H], "all valid messages in all spellings, all cut points, all continuations",
     "TCP segments messages anywhere; the tests cut a few messages at a few points.",
     [DEC] + PARSERS, ["streaming nom parsers", "literal handling", "line end parsing"],
     [("main", 900000, 8000000)],
     "property-based testing: exhaustive cutting of generated messages, metamorphic trailing input",
     "Every cut point for messages up to 220 bytes, edges plus sampled ones above. Messages and spellings are sampled.")
prop("C05", "Literals are announced exactly, at every literal and nowhere else",
     "When a command or response is cut directly behind a literal announcement, decoding reports that a literal was found with the announced length and (for commands) the command's tag and the literal's mode; at every other cut it reports plain incompleteness. Any length up to 2^32-1 is reported as announced, and larger ones are rejected.",
     [I, H], "all commands and responses with literals, all cut points, all announced lengths",
     "A server that misses or misattributes one announcement deadlocks or answers with the wrong tag; tests cover LOGIN and APPEND only.",
     [DEC, "imap-codec/src/core.rs", "imap-codec/src/command.rs", "imap-codec/src/response.rs"],
     ["LiteralFound error path", "literal / literal8 parsers", "tag recovery for commands"],
     [("main", 200000, 4000000)],
     "property-based testing against literal positions known from an independent printer",
     "Literal positions, lengths and modes come from the harness's own printer of the formal syntax.")
prop("C06", "Encoded fragments frame every literal correctly",
     "The fragments of an encoded message are, in order, lines and literals such that every line ends in CRLF and has no other line end, every literal directly follows a line announcing exactly its length and mode, the last fragment is a line, there is exactly one literal fragment per literal of the message with its exact bytes, and the concatenation of all fragments is the dumped encoding.",
     [I], "all messages of the five codecs",
     "A sender pauses at fragments; one wrong boundary or mode for some message shape breaks synchronization. Tests list a handful of fragmentations.",
     [ENC], ["Encoded / Fragment / EncodeContext", "push_line / push_literal"],
     [("main", 6000000, 40000000)],
     "property-based invariant over encoder output plus a reference printer",
     "Framing is re-parsed by the harness; literals compared with the independent printer's.")
prop("C07", "Fragmenting a stream is independent of how it arrives",
     "For any byte stream, the sequence of fragments, their bytes and the messages they complete depend only on the stream, not on how it is split into chunks or when progress is called between them; and it is the one defined by lines ended by LF, literal announcements at line ends and the announced number of literal bytes.",
     [I, H], "all byte streams, all chunkings, all interleavings of enqueue and progress",
     "Tests feed chosen streams byte by byte or whole; state kept between chunks matters for every split.",
     [FRAG], ["Fragmentizer::progress", "LineParser", "LiteralParser", "announcement parsing"],
     [("main", 3500000, 20000000)],
     "model-based testing: chunked fragmentizer versus a whole-stream reference model",
     "Reference model written from the documentation; streams mix valid, damaged and adversarial announcements and line ends.")
prop("C08", "The fragmentizer obeys its model under any history of operations",
     "Under any history of enqueue, progress, skip, poison and decode calls, the fragmentizer's fragments, message bytes, completeness, tag, size and poison flags and decode results are those of a simple model. A message over the size limit or poisoned is never decoded (too long wins over poisoned), message bytes are cut at the limit and memory stays bounded by it, while framing goes on and the next message starts unaffected. The work done is in proportion to the bytes received, however they arrive.",
     [H, I, F], "all operation histories, all limits, all streams",
     "Histories combine; the tests walk through single features (skip, poison, limit) one at a time.",
     [FRAG], ["skip_message", "poison_message", "max_message_size", "decode_message", "decode_tag", "message buffer"],
     [("main", 1300000, 15000000)],
     "stateful model-based testing with shrinking",
     "Every observable is compared with the model after every operation; memory measured with a counting allocator.")
prop("C09", "A stream of messages, good and bad, is taken apart message by message",
     "For any sequence of commands or responses sent back to back in any chunks, each well-formed message within the size limit is framed and decoded to exactly what was sent, a malformed one is reported as such with its tag still readable, an oversized one is reported as too long, and none of them affects the following messages. The literals announced by the fragmentizer are those the decoder asks for.",
     [H, I, F], "all message sequences with malformed and oversized messages in between, all chunkings",
     "End-to-end resynchronization needs whole sessions; tests decode single messages.",
     [FRAG, DEC, ENC], ["Fragmentizer + CommandCodec/ResponseCodec", "decode_tag"],
     [("main", 1800000, 10000000)],
     "stateful session generation with a known-by-construction oracle",
     "Messages whose free text ends like a literal announcement are left out (documented limitation of line-based framing).")
prop("C10", "String and date types accept exactly their grammar and keep the value",
     "Each string-like type (atoms, extended atoms, tags, text, quoted strings, literals, literal8, charsets, list patterns, quoted characters) and each date type accepts a value through any of its constructors exactly if the formal syntax allows it, and then holds that value unchanged. Non-empty vectors accept exactly the non-empty lists (two or more for the two-element kind). The unvalidated constructors keep a valid value, and refuse an invalid one where debug assertions are on. The error names the first byte that is not allowed and its position. Names built on atoms (mechanisms, capabilities, resources, flags) and mailbox names accept exactly what their atom or string accepts, apart from the reserved INBOX.",
     [I], "all byte strings and all dates, through all constructors",
     "Validation must be right for each of 256 bytes at each position and for each constructor; tests try a few characters.",
     ["imap-types/src/core.rs", "imap-types/src/mailbox.rs", "imap-types/src/datetime.rs", "imap-types/src/utils.rs"],
     ["validate functions", "TryFrom impls", "indicators (is_atom_char, ...)", "escape_quoted / unescape_quoted"],
     [("main", 12000000, 60000000)],
     "property-based differential testing against character classes restated from the RFCs",
     "Character classes are restated in the harness from RFC 3501/9051.")
prop("C11", "Strings choose a representation that can carry them",
     "Converting any text or bytes to the flexible string types picks a representation that carries the value unchanged (atom if possible where atoms are allowed, else quoted if possible, else literal) and fails exactly if none can; the wire form decodes to an equal value.",
     [I], "all strings and byte strings",
     "The choice depends on every byte; a wrong choice produces unparsable or altered bytes only for some strings.",
     ["imap-types/src/core.rs", "imap-types/src/mailbox.rs", ENC], ["AString / IString / NString / ListMailbox conversions", "string encoders"],
     [("main", 12000000, 60000000)],
     "property-based testing against the representation rule restated in the harness",
     "Includes equality and hash agreement of conversions.")
prop("C12", "INBOX is one mailbox however it is spelled, and no other name is",
     "A mailbox name denotes INBOX exactly if it equals INBOX up to ASCII case, in every constructor, in every string form (atom, quoted, literal) and at every place of the protocol; any other name keeps its exact bytes. INBOX is always written as INBOX.",
     [I], "all mailbox names, string forms and protocol positions",
     "About 20 protocol positions times the string forms times spellings; tests try a few.",
     ["imap-types/src/mailbox.rs", "imap-codec/src/mailbox.rs", ENC], ["Mailbox / MailboxOther constructors", "mailbox parser"],
     [("main", 15000000, 40000000)],
     "property-based testing over names, spellings and protocol positions",
     "Near-misses (one letter off, Unicode look-alikes, prefix/suffix) are generated on purpose.")
prop("C13", "Sequence sets mean the same numbers through every operation",
     "Parsing, printing, normalizing, iterating and converting sequence sets preserve the set of message numbers they denote for every mailbox size; normalizing gives the canonical form (ascending, disjoint, non-adjacent) and is idempotent. A string or number is accepted exactly if it is a valid set, sequence or number, and iterators yield the members that exist, in the documented order.",
     [I], "all sequence sets, strings, Rust ranges and mailbox sizes",
     "Interval arithmetic fails at edges (*, 2^32-1, adjacency, reversal); tests cover a few sets.",
     ["imap-types/src/sequence.rs", "imap-codec/src/sequence.rs", ENC], ["SequenceSet::normalize", "FromStr / TryFrom / From ranges", "iter / strategies", "Ord"],
     [("main", 9000000, 50000000)],
     "property-based testing against a naive denotational model of sets",
     "Model enumerates or computes intervals in u64/i128.")
prop("C14", "Borrowed and owned messages are the same message",
     "For every input, decoding to a borrowed message and to an owned one succeed or fail alike, with the same remainder and error; converting a borrowed message to an owned one in any way gives an equal message with the same hash and the same encoding. Two messages are equal exactly if all their parts are.",
     [I], "all inputs of the five codecs",
     "Conversion code exists per field of every type; tests convert none or few.",
     ["imap-types/src/lib.rs", DEC, "imap-types/src/core.rs"], ["ToStatic / IntoStatic (bounded-static) impls", "decode_static"],
     [("main", 6000000, 30000000)],
     "differential property-based testing of borrowed versus owned results",
     "Equality, hash and encoding are compared.")
prop("C15", "Serialization preserves messages and cannot smuggle invalid ones",
     "With serde enabled, every message serialized and deserialized again is equal and encodes to the same bytes. Deserializing a document never yields a value of a validated type (strings, tags, dates, sequence sets, non-empty lists) that its constructors would reject, nor a message that is not exactly one well-formed message on the wire.",
     [I], "all messages; all documents derived from valid ones by changing leaves",
     "The serde feature has a handful of tests on single types.",
     ["imap-types/src/core.rs", "imap-types/src/datetime.rs", "imap-types/src/mailbox.rs", "imap-types/src/sequence.rs"],
     ["serde(try_from) attributes", "custom Deserialize impls"],
     [("ser", 2500000, 30000000)],
     "property-based round trip and document mutation",
     "JSON is the only format exercised. Unvalidated 'other' codes and UTF-8 quoted strings are excluded; see known-findings.txt for the 'other' name types.")
prop("C16", "Secrets never appear in debug output",
     "In release builds, the debug form of a command, authenticate data or decode error never reveals passwords, SASL data or discarded message bytes: two values that differ only in secret contents print alike in every debug format. The secret itself is unchanged on the wire.",
     [I, CF], "all secrets, all debug formats, all messages carrying secrets",
     "Non-interference quantifies over all secrets; tests run in debug builds, where redaction is deliberately off.",
     ["imap-types/src/secret.rs", "imap-types/src/auth.rs", "imap-types/src/command.rs", FRAG], ["Secret Debug impl", "AuthenticateData / Login / Authenticate / DecodeMessageError Debug"],
     [("rel", 2000000, 12000000)],
     "non-interference testing with pairs of secrets (release build)",
     "Compares {:?}, {:#?}, width/precision and hex variants between two different secrets.")
prop("C17", "Keywords ignore case; everything else keeps it",
     "Any change of letter case in the keywords of a valid message decodes to the same message, and the case of every other letter (user strings, names, tags, flags' keywords, base64) is preserved: changing it changes the message accordingly.",
     [I], "all valid messages, all case changes",
     "Each of several hundred keyword parsers must be case-insensitive; tests use mostly upper case.",
     PARSERS, ["tag_no_case versus tag in each parser"],
     [("main", 4000000, 25000000)],
     "metamorphic testing: respelled keywords",
     "Which letters belong to keywords is known from the independent printer.")
prop("C18", "Known names are always recognised, unknown ones kept verbatim",
     "For every extensible name (authentication mechanism, capability, enable capability, quota resource, sort and threading algorithm, flag, name attribute, compression), a known name in any letter case yields its dedicated value and prints canonically, any other atom is kept verbatim, and no value of the 'other' kind equals a known name through the parsing or conversion API. Parsing what was printed gives the value back.",
     [I], "all atoms, in all letter cases, for all extensible name types",
     "Each table is written twice or more (parse, print); tests list a few names.",
     ["imap-types/src/auth.rs", "imap-types/src/response.rs", "imap-types/src/extensions", "imap-types/src/flag.rs"],
     ["From<Atom> / TryFrom / Display / AsRef of name types"],
     [("main", 12000000, 60000000)],
     "property-based testing against name tables restated from the RFCs",
     "Tables restated in the harness.")
prop("C19", "Each quirk rectifies exactly its documented deviation",
     "With a quirk enabled, a message with the deviation it documents (missing text, negative or missing body fields, extra spaces, empty continuation, bare LF) decodes to the message without the deviation, incrementally as well, and is re-encoded in the standard form; with it disabled, whatever other quirks are on, the message is rejected (or kept as an unknown code).",
     [CF, I], "all messages at the places each quirk concerns, with quirks on and off",
     "Quirk tests use one or two literal messages each, in the default feature set only; a quirk guarded by the wrong feature is invisible there.",
     ["imap-codec/src/response.rs", "imap-codec/src/body.rs", "imap-codec/src/core.rs", "imap-codec/src/envelope.rs", "imap-codec/src/status.rs", "imap-codec/src/extensions/quota.rs", "imap-codec/src/extensions/id.rs"],
     ["cfg(feature = quirk_*) branches"],
     [("main", 900000, 12000000), ("strict", 600000, 8000000), ("relaxed", 600000, 8000000)] + [(f"mix{i}", 200000, 3000000) for i in range(6)],
     "property-based testing of injected deviations under several feature sets",
     "Expected meaning by construction.")
prop("C20", "The wire form follows the formal syntax",
     "The encoder's output for every message is exactly what the formal syntax (RFC 3501 and the implemented extensions) prescribes, up to letter case of keywords, and the decoder accepts every spelling the formal syntax allows for a message (any string form, optional parts, number forms) and yields that message.",
     [I], "all messages, all permitted spellings",
     "Round trips cannot see an encoder and decoder that are wrong alike, and tests list only some spellings.",
     [ENC] + PARSERS, ["every encoder and parser"],
     [("main", 5000000, 25000000)],
     "differential testing against an independent printer of the formal syntax",
     "The printer was written from the RFCs, not from the encoder; it is the trusted base.")
prop("C21", "Generated tags are valid and unique within a process",
     "Every tag from the tag generators is a valid tag, and no two tags generated in a process are equal, across any number of generators, uses and threads; each generator's instance prefix is its own. In release builds every tag carries a random part that cannot be predicted.",
     [H, "schedules"], "all sequences of creating, using and dropping generators, from several threads",
     "Uniqueness is over all pairs of a history; the test draws a few tags from one generator.",
     ["imap-types/src/core.rs"], ["TagGenerator", "global counter"],
     [("main", 20000, 500000), ("rel", 20000, 500000)],
     "stateful generation of generator histories on several threads",
     "Histories of up to a few hundred tags per case; all tags of the process are kept in one set. Two generators in separate processes are out of scope.")
prop("C22", "SASL data is base64, exactly",
     "Authenticate data, initial responses and base64 continuation requests decode exactly from the canonical base64 of any data (with '=' for an empty initial response and '*' for cancellation) and encode to it; anything else is rejected, or read as text in a continuation request.",
     [I], "all byte strings as data, all lines as input",
     "Padding, alphabet and emptiness edges; tests use two or three strings.",
     ["imap-codec/src/auth.rs", "imap-codec/src/core.rs", "imap-codec/src/response.rs", "imap-codec/src/command.rs", ENC], ["base64 parser", "authenticate_data", "continue_req"],
     [("main", 7000000, 50000000)],
     "differential property-based testing against an own base64",
     "Own RFC 4648 implementation in the harness.")
prop("C23", "What the formal syntax forbids is rejected",
     "Without quirks, a command or data response that breaks the formal syntax is rejected by the decoder: numbers out of range or zero where forbidden, missing, doubled or trailing spaces, unbalanced parentheses, control or 8-bit bytes outside strings, line ends or bad escapes inside quoted strings, NUL in literals, impossible or mistyped dates, empty lists where one element is needed, and missing or misplaced arguments. A token or date at any place is accepted exactly if the grammar allows it there, with its value kept.",
     [I], "all valid commands and data responses with one syntax violation; all tokens and calendar dates",
     "Negative space is unbounded; the tests reject a few dozen fixed inputs.",
     PARSERS, ["character classes and number parsers", "date parsers", "separators in every list parser"],
     [("strict", 6000000, 50000000), ("bare", 900000, 8000000)],
     "property-based testing with grammar-violating edits at known structural positions",
     "Edits are placed by the independent printer, so that each is a violation by construction; lenient spots that are not claimed: empty FETCH and STATUS item lists, leading zeros, TEXT bodies without line count, empty parameter lists.")
prop("C24", "The guarantees hold under other feature sets",
     "Round trip, stability, incremental decoding, literal reporting and the wire form hold as well without quirks, without extensions and with the opt-in quirks. Without an extension's feature its syntax is not accepted as if it were on: commands and data are rejected, capabilities and codes are kept as unknown ones. Each extension and each quirk depends on its own feature alone.",
     [CF, I], "feature sets strict (extensions only), minimal (default quirks only), relaxed (all), bare (none) and six mixed ones; all messages under them",
     "The test suite runs under one feature set; cfg branches of the others are not even executed.",
     ["imap-codec/Cargo.toml", ENC] + PARSERS, ["cfg(feature = ...) branches"],
     [("strict", 150000, 6000000), ("min", 150000, 6000000), ("relaxed", 150000, 6000000), ("bare", 150000, 6000000)] + [(f"mix{i}", 100000, 4000000) for i in range(6)],
     "property-based testing of C01, C02, C04, C05 and C20 in ten further configurations",
     "Ten of 2^21 feature sets, chosen so that of any two features each is on without the other in one of them or in the main one, and every combination of an extension and a quirk being on or off occurs.")
prop("C25", "Command constructors build the command asked for, or refuse",
     "Every command constructor, given arbitrary arguments, either refuses them or builds a command whose encoding carries exactly these arguments at the right places, as one command on the wire (no injection); it refuses exactly what the argument types refuse, and names the argument at fault. The reported command name is the one on the wire.",
     [I], "all constructors, all arguments including CR, LF, NUL and non-ASCII",
     "Injection is a property of all argument strings; tests construct benign commands.",
     ["imap-types/src/command.rs"], ["CommandBody constructors", "CommandBody::name", "Command::new / tag"],
     [("main", 8000000, 40000000)],
     "property-based testing of constructors with hostile arguments",
     "Arguments are read back from the decoded command.")
prop("C26", "Response constructors build the response asked for, or refuse",
     "Every constructor of greetings, status responses, data, response codes and continuation requests, given arbitrary arguments, either refuses them or builds exactly the response asked for, as one response on the wire carrying these arguments (no injection); it refuses exactly invalid texts, zero numbers and empty lists, and (for continuation requests) texts that would be read as something else, and names the argument at fault. Accessors return what was put in.",
     [I], "all constructors, all arguments including CR, LF, NUL, brackets and non-ASCII",
     "Tests build a few benign responses; swapped or dropped arguments and accepted bad ones need arguments they do not try.",
     ["imap-types/src/response.rs", "imap-types/src/extensions/quota.rs", "imap-types/src/extensions/namespace.rs"],
     ["Greeting, Status, Data, Code and CommandContinuationRequest constructors", "Status and CommandContinuationRequestBasic accessors"],
     [("main", 6000000, 40000000)],
     "property-based testing: generated responses are taken apart and rebuilt; constructors fed hostile arguments",
     "Oracle is equality with the generated response, and an independent predicate for valid arguments.")
prop("C27", "Messages from the Arbitrary implementations are real messages",
     "With the arbitrary feature (also the simplified one, and without extensions), whatever message or message part the Arbitrary implementations make from any bytes is one the constructors allow: it is encoded as the formal syntax prescribes and decodes completely to an equal message. Excepted are referral codes, which hold unvalidated text.",
     [I, CF], "all byte strings given to Arbitrary, for every message type and the larger parts",
     "Downstream fuzzers rely on it; the tests draw a few values and only check that they exist.",
     ["imap-types/src/arbitrary.rs"], ["Arbitrary implementations", "depth limits of generated values"],
     [("arb", 4000000, 20000000), ("arbmin", 600000, 4000000), ("arbsimple", 600000, 4000000)],
     "fuzzing the Arbitrary implementations with a round-trip and an independent-printer oracle",
     "Byte strings are random with a structure that makes Arbitrary succeed often; rarely made types get fewer cases.")
prop("C28", "Conversions, accessors and printing helpers keep the value",
     "Converting a value between the string types (atom, extended atom, quoted, literal, optional string, charset, mailbox, secret), changing a literal's mode, reading it through any accessor, or printing a flag, name or thread never changes its bytes; parsing what was printed gives the value back. The public character classes agree with the formal syntax for every byte, and escaping bytes for display is printable and reversible.",
     [I], "all byte strings and all values of the string types",
     "The tests convert a few words; a conversion that trims, re-modes or re-cases one kind of value is invisible to them.",
     ["imap-types/src/core.rs", "imap-types/src/utils.rs", "imap-types/src/mailbox.rs", "imap-types/src/flag.rs", "imap-types/src/secret.rs",
      "imap-types/src/extensions/condstore_qresync.rs", "imap-types/src/extensions/metadata.rs", "imap-types/src/extensions/thread.rs"],
     ["From / AsRef / into_inner / Display implementations", "utils::indicators", "utils::escape_byte_string"],
     [("main", 2500000, 30000000)],
     "property-based testing of conversions against the generated bytes; exhaustive over bytes for character classes",
     "Candidates are valid strings with a few bytes changed; each accepted candidate goes through every conversion of every type that accepts it.")
exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None
P.sort(key=lambda p: p["id"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": [x for x in p["files"]], "mechanism": [{"name": m, "where": ", ".join(p["files"][:2])} for m in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
with open(os.path.join(HERE, "plan.json"), "w") as f:
    f.write("{\n" + ",\n".join(f' "{p["id"]}": {json.dumps(p["plan"])}' for p in P) + "\n}\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none: no hook was needed, every property is observed through the public API", "enable": "nothing to enable", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": []}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
