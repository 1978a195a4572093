#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=hook)))
M="src/messages/"
HD="decode/encode entry points of the crate-private Wire trait (cfg http_ntlm_verif)"
p("C01","Decoding untrusted bytes never crashes",
  "Whatever bytes a peer sends, decoding them as a NEGOTIATE, CHALLENGE or AUTHENTICATE message (or as any structure inside one) ends promptly with a value or an error. It never panics, aborts, hangs, or reads outside the bytes it was given.",
  ["inputs"],"all byte strings: truncations, corrupted headers, out-of-range descriptors, malformed pair lists, malformed text",
  "The tests decode seven hand-written valid messages; no test decodes a malformed one.",
  [M+"field.rs",M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",M+"structures/avid.rs",M+"unicode_string.rs"],
  [("bounds check of a field descriptor",M+"field.rs Field::get_data_if/get_many_if"),("pair decoding",M+"structures/avid.rs AvPair::deserialize")],
  ["result of decoding"],HD)
p("C02","A decoded field is exactly the bytes its descriptor designates",
  "Each variable-length field of a decoded message has exactly the content that the field's own (length, offset) descriptor designates in the received bytes, wherever the payload lies and in whatever order, with gaps or overlaps; the maximum-length value of the descriptor has no influence. A message with a used non-empty descriptor that reaches past the end of the received bytes is rejected, never decoded to shortened, shifted or foreign data; a zero-length descriptor means the field is absent.",
  ["inputs"],"all descriptor values and payload layouts",
  "Tests only decode messages laid out in one canonical order with consistent descriptors.",
  [M+"field.rs",M+"negotiate.rs",M+"challenge.rs",M+"authenticate.rs"],
  [("descriptor range",M+"field.rs Field::get_range"),("field extraction",M+"field.rs Field::get_data_if/get_many_if")],
  ["decoded message fields"],HD)
p("C03","Encoding then decoding a message gives the same message",
  "Any NEGOTIATE, CHALLENGE or AUTHENTICATE message whose flags agree with its content (the version flag is set exactly when a version is present) decodes, after encoding, to a message equal to the original in every transmitted part, where an empty name counts as absent and names contain no NUL. This holds for every combination of present and absent parts, for any names up to the 65535-byte field limit, and for payloads larger than 64 KiB in total.",
  ["inputs"],"all combinations of optional parts, name contents and lengths, responses, flags, versions",
  "Three encode tests sample one message each, and the AUTHENTICATE one fails at the pinned commit.",
  [M+"negotiate.rs",M+"challenge.rs",M+"authenticate.rs",M+"field.rs",M+"structures/nt_challenge.rs",M+"structures/lm_challenge.rs"],
  [("encoders and decoders","serialize_into/deserialize of each message"),("response kind selection",M+"authenticate.rs Authenticate::deserialize")],
  ["decoded message compared with the original"],HD)
p("C04","Encoded messages have the MS-NLMP layout",
  "Every encoded message starts with the NTLMSSP signature and its type, carries its flags, challenge, version and descriptors at the offsets MS-NLMP gives, and its descriptors have equal length and maximum length, designate non-overlapping regions inside the message and behind the fixed part, and together with the fixed part cover the message without gaps. The byte count the encoder reports is the number of bytes it produced, and an independent MS-NLMP decoder recovers the same content.",
  ["inputs"],"all messages that can be built",
  "Round-trip tests cannot see an error made alike in encoder and decoder (swapped pair identifiers, wrong offsets); no test compares an encoding with the specification except one 28-byte blob.",
  [M+"negotiate.rs",M+"challenge.rs",M+"authenticate.rs",M+"field.rs",M+"structures/avid.rs",M+"flags.rs"],
  [("payload assembly",M+"field.rs Field::append/append_many")],["encoded bytes"],HD)
p("C05","Truncated, foreign or mistyped messages are rejected",
  "Bytes decode as a given message type only if they start with the NTLMSSP signature followed by that type and contain the whole fixed part (including the version when the version flag is set, and the integrity code of an AUTHENTICATE). No message decodes as another type, and no proper prefix of a message that cuts into the fixed part or into a used field decodes.",
  ["inputs"],"all prefixes of and all single- and double-byte changes to the identifying bytes of messages of each type",
  "No test decodes a wrong or truncated message.",
  [M+"negotiate.rs",M+"challenge.rs",M+"authenticate.rs",M+"structures/version.rs"],
  [("signature and type check","tag(SIGNATURE), verify(le_u32 == MESSAGE_TYPE) in each deserialize")],["decode verdict"],HD)
p("C06","Target information lists are terminated and order preserving",
  "A target information list decodes to its pairs in wire order, each with the identifier's own meaning and its exact value. A CHALLENGE with a non-empty target information field decodes only if the pairs read from it end with the end-of-list pair; in particular a list whose first pair is already malformed is rejected, not taken for an empty list.",
  ["inputs"],"all pair sequences up to a bound, all byte strings over a boundary alphabet, all truncations",
  "Tests decode one list with two pairs; nothing covers the other eight pair kinds, unterminated or malformed lists.",
  [M+"structures/avid.rs",M+"challenge.rs",M+"field.rs"],
  [("end-of-list check",M+"challenge.rs Challenge::deserialize"),("identifier table",M+"structures/avid.rs AvId")],["decoded pairs"],HD)
p("C07","Names keep their text on the wire",
  "A Unicode name is sent as the UTF-16 little-endian encoding of its text, and decoding gives back the same text for every sequence of Unicode characters other than NUL, including characters outside the basic multilingual plane. Malformed UTF-16 before the first NUL is rejected and never turned into some other text; text stops at the first NUL.",
  ["inputs"],"all Unicode scalar values, all sequences of UTF-16 code unit classes up to a bound, all lengths up to the field limit",
  "Tests use eight ASCII names.",
  [M+"unicode_string.rs",M+"structures/avid.rs"],
  [("UTF-16 coding",M+"unicode_string.rs UnicodeString, "+M+"structures/avid.rs encode_string")],["encoded bytes and decoded text"],HD)
p("C08","Flag words keep every bit; bit operations touch one bit",
  "Encoding and decoding preserve all 32 bits of a flags word, little-endian, for every word (in the default build no word is refused). Testing, setting or clearing a flag reads or changes exactly that bit at its MS-NLMP position, and the textual form names exactly the flags that are set.",
  ["inputs"],"all 2^32 flag words, all 32 bits","Tests decode two words.",
  [M+"flags.rs"],[("bit operations",M+"flags.rs Flags::has_flag/set_flag/clear_flag/validate/fmt")],["flags word before and after"],HD)
p("C09","File times denote 100 ns ticks since 1601",
  "A file time value denotes that many 100-nanosecond ticks since 1601-01-01 UTC: converting a clock time at or after 1970 to a file time and back gives the same instant to 100 ns, conversion is monotone, and the current file time is the current clock reading. A time that does not fit is refused, never wrapped.",
  ["inputs"],"all 64-bit tick values at boundaries, clock readings, sub-second parts",
  "The only file times in tests are opaque constants.",
  [M+"structures/filetime.rs"],[("conversion",M+"structures/filetime.rs FileTime::to_system_time/try_from/now")],["converted values"],"clock supplied by the harness (link-time stand-in, no change to the repository)")
p("C10","Builder flags follow the presence of fields",
  "After any sequence of builder calls on a message, the flag that announces an optional part is set exactly when the last call set that part, the getters return the last value set, and no other flag or part changes. Target information added to a CHALLENGE appears in call order, after what was already there and before exactly one end-of-list pair, and sets the target information flag.",
  ["histories"],"all sequences of builder calls up to a bound, from several starting messages",
  "One test calls five builder functions once, in one order.",
  [M+"negotiate.rs",M+"challenge.rs",M+"authenticate.rs","src/messages.rs"],
  [("setters",M+"negotiate.rs set_*, "+M+"challenge.rs add_target_info, src/messages.rs generate_setter_getter, "+M+"authenticate.rs set_encrypted_random_session_key")],["message state after each call"],HD)
p("C11","Credentials are hashed as MS-NLMP prescribes for any text",
  "For every user name, domain and password the client can be built, and the keys behind its responses are: NT key = MD4 of the UTF-16LE password; LM key = the two DES encryptions keyed by the upper-cased password cut or zero-padded to 14 bytes; NTLMv2 key = HMAC-MD5 under the NT key of the UTF-16LE of upper-cased user followed by the domain as given. No password or name, including non-ASCII and over-long ones, makes building the client fail.",
  ["inputs"],"all short strings over a boundary alphabet, every Unicode character, all lengths across the 7/14-byte limits",
  "Three tests hash one ASCII password each.",
  ["src/crypto/lm.rs","src/crypto/nt.rs","src/crypto/des.rs","src/client.rs"],
  [("one-way functions","src/crypto/lm.rs lmowfv1, src/crypto/nt.rs ntowfv1/ntowfv2")],["responses in the AUTHENTICATE message"])
p("C12","A server knowing the password accepts NTLMv1 responses",
  "At compatibility levels 0 to 2, for every CHALLENGE the AUTHENTICATE message carries the 24-byte NT response MS-NLMP defines for the NT key: of the server challenge, or, when extended session security is on in the CHALLENGE, of the MD5 of server and client challenge, the client challenge then being the zero-padded LM response. Without extended session security the LM response is computed from the LM key at level 0 and equals the NT response at levels 1 and 2.",
  ["inputs","configurations"],"all combinations of negotiation flags, levels 0-2, challenges, credentials",
  "Unit tests call the response function with two flag words; the one end-to-end test fails at the pinned commit.",
  ["src/client.rs","src/crypto/ntlmv1.rs","src/crypto.rs"],
  [("response computation","src/crypto/ntlmv1.rs compute_response, src/crypto.rs desl")],["AUTHENTICATE bytes verified by a reference server"])
p("C13","A server knowing the password accepts NTLMv2 responses",
  "At compatibility levels 3 to 5, for every CHALLENGE the NT response is the proof HMAC-MD5(NTLMv2 key, server challenge + blob) followed by the blob, whose blob holds the server's timestamp if the CHALLENGE has one (else the current time), the client challenge and exactly the target information of the CHALLENGE, with the reserved zeros MS-NLMP requires. The LM response is HMAC-MD5(NTLMv2 key, server challenge + client challenge) followed by the same client challenge.",
  ["inputs","configurations"],"all flag combinations, levels 3-5, target information lists, challenges, credentials",
  "One unit test checks the computed pieces for one input; no test looks at the message a client sends.",
  ["src/client.rs","src/crypto/ntlmv2.rs",M+"structures/nt_challenge.rs"],
  [("response computation","src/crypto/ntlmv2.rs compute_response"),("response encoding",M+"structures/nt_challenge.rs")],["AUTHENTICATE bytes verified by a reference server"])
p("C14","Client and server end with the same session key",
  "For every level and every CHALLENGE, the session key a server derives from the AUTHENTICATE message by MS-NLMP equals the session key the client holds: the key exchange key follows the rules for extended session security, LM key, non-NT key and NTLMv2. A random session key is sent, RC4-encrypted under the key exchange key, exactly when key exchange and signing or sealing were negotiated; otherwise no encrypted key is sent and the session key is the key exchange key.",
  ["inputs","configurations","histories"],"all combinations of negotiation flags, levels 0-5, first and repeated AUTHENTICATE messages",
  "Unit tests cover five flag words by calling internal functions with arguments the client never passes.",
  ["src/client.rs","src/crypto.rs","src/crypto/ntlmv1.rs","src/crypto/ntlmv2.rs"],
  [("key derivation","src/crypto.rs kxkey/encrypt_random_session_key"),("use","src/client.rs send_authenticate_ntlmv1/ntlmv2")],["client session key vs key recovered from AUTHENTICATE bytes"],"read access to the client's last exchange (cfg http_ntlm_verif)")
p("C15","The integrity code covers the messages actually exchanged",
  "At levels 3 to 5 the integrity code in the AUTHENTICATE message equals HMAC-MD5 under the session key of the NEGOTIATE message as sent, the CHALLENGE as encoded, and the AUTHENTICATE message as sent with the code zeroed. Computing the code again on a message, whatever code it held before, gives the same code.",
  ["inputs","configurations","histories"],"all flag combinations, levels 3-5, workstation/domain presence, target information, repeated computation",
  "No test checks an integrity code.",
  ["src/client.rs",M+"authenticate.rs"],[("integrity code",M+"authenticate.rs compute_mic"),("point of computation","src/client.rs send_authenticate")],["AUTHENTICATE bytes"],HD)
p("C16","Handshake order: only an accepted challenge is answered",
  "A CHALLENGE is accepted only as the first one after a NEGOTIATE; handed in at any other time (before any NEGOTIATE, a second one, or after AUTHENTICATE) it changes nothing. Every AUTHENTICATE produced answers the challenge accepted since the most recent NEGOTIATE, and when there is none no AUTHENTICATE is produced; a new NEGOTIATE starts over from any point.",
  ["histories"],"all sequences of client calls up to a bound, at every level",
  "The only client test runs one in-order handshake (and fails).",
  ["src/client.rs"],[("handshake state","src/client.rs ClientState, recv_challenge, set_authenticated_state")],["messages returned by the client"])
p("C17","A reused client behaves like a fresh one",
  "After any history of calls, including abandoned, repeated and refused ones, the messages a client sends in its next complete handshake are the ones a newly built client with the same credentials would send for the same challenge, clock and random data. Nothing of an earlier handshake appears in a later message.",
  ["histories"],"all call histories up to a bound followed by a full handshake, at every level",
  "No test reuses a client.",
  ["src/client.rs"],[("state and buffer reset","src/client.rs send_negociate/send_authenticate, buffer.clear()")],["message bytes, compared between a used and a fresh client"],"clock and random source supplied by the harness (link-time stand-ins)")
p("C18","NEGOTIATE offers exactly what the level allows",
  "The NEGOTIATE message always offers Unicode, OEM, signing, sealing, always-sign, 128-bit and requests the target; it additionally offers NTLM, LM key and key exchange at level 0, NTLM and extended session security at level 1, and extended session security, key exchange and target information at levels 2 to 5, and nothing else that weakens it (LM key and extended session security never together). The domain is included and announced exactly when the client has one, and an unsupported level is refused.",
  ["inputs","configurations","histories"],"all levels, all domains in the alphabet, first and later handshakes",
  "No test inspects the NEGOTIATE message a client sends.",
  ["src/client.rs",M+"negotiate.rs"],[("flag selection","src/client.rs send_negociate")],["NEGOTIATE bytes"])
p("C19","Account names are split and sent as given",
  "A client built from a single account name uses DOMAIN\\\\user (split at the first backslash) or else user@domain (split at the first @) or else the bare name with an empty domain. The AUTHENTICATE message carries exactly that user and domain, character for character, and the same pair enters the NTLMv2 key.",
  ["inputs"],"all account names up to a bound over an alphabet with separators and non-ASCII characters",
  "No test builds a client from an account name with a separator.",
  ["src/client.rs"],[("split","src/client.rs Client::new")],["names in NEGOTIATE and AUTHENTICATE, NTLMv2 proof"])
p("C20","Client challenges and session keys are fresh OS randomness",
  "Every AUTHENTICATE uses a client challenge, and when keys are exchanged a session key, all of whose bytes come newly from the operating system's random source; neither is ever reused between messages or clients. When the random source fails no message is produced, and short or interrupted reads never leave part of a value predictable.",
  ["fault_sequences","histories","inputs"],"all single-byte random answers, all fault sequences of the random source up to a bound, repeated handshakes",
  "No test looks at randomness or its failure.",
  ["src/client.rs","src/crypto.rs",M+"structures.rs"],[("random values",M+"structures.rs buffer_aliases random()")],["client challenge and session key in messages"],"random source supplied by the harness (link-time stand-in)")
p("C21","Workstation name follows the environment and never blocks a client",
  "The workstation sent is the COMPUTERNAME variable if set and valid, else the upper-cased, trimmed part before the first dot of the first line of /etc/hostname, else absent. Whatever the environment answers (missing, unreadable, empty, non-text, multi-line), building a client and completing a handshake succeed, as long as the name fits into the 65535 bytes of a field.",
  ["fault_sequences","configurations"],"all answers of the environment in a bounded alphabet, including failures",
  "Tests depend on the machine's own host name and overwrite the result.",
  ["src/client.rs"],[("lookup","src/client.rs get_workstation_name")],["workstation in AUTHENTICATE"],"host name file supplied by the harness (link-time stand-in)")
p("C22","AUTHENTICATE flags declare exactly what the message carries",
  "The AUTHENTICATE flags announce Unicode text (and not OEM), an encrypted session key exactly when one is present, and a version exactly when one is present. Apart from these and the target flags (target type server cleared, target info and request target set), they equal the flags selected by the CHALLENGE, at every level; the message therefore always decodes to what was sent.",
  ["inputs","configurations"],"all combinations of CHALLENGE flags, levels 0-5",
  "The one test that inspects a sent AUTHENTICATE fails at the pinned commit and covers one flag word.",
  ["src/client.rs",M+"authenticate.rs"],[("flag selection","src/client.rs send_authenticate*")],["AUTHENTICATE bytes"],HD)
p("C23","Environment-derived target information is complete and exact",
  "Filling a CHALLENGE from the environment adds exactly one pair for each of COMPUTERNAME and USERDOMAIN (upper-cased, NetBIOS names) and COMPUTERDNSNAME and USERDNSDOMAIN (as given, DNS names) that is set to valid text, and none for the others. Existing pairs stay in front and the list stays terminated.",
  ["configurations","histories"],"all settings of the four variables over an alphabet, from several starting lists, called once or twice",
  "No test calls it.",
  [M+"challenge.rs"],[("environment",M+"challenge.rs fill_from_env")],["pairs of the CHALLENGE"])
p("C24","Strict builds refuse what the specification forbids",
  "Built with the strict feature, decoding a message refuses a flags word that sets a reserved bit, names both target types, selects no character set, or asks for both LM key and extended session security, and refuses a CHALLENGE with a non-zero reserved field. Every other message decodes exactly as in the default build.",
  ["inputs","configurations"],"all 2^32 flag words, all single-byte reserved values, both builds",
  "The tests are never built with the feature, and none decodes a forbidden message.",
  [M+"flags.rs",M+"challenge.rs","Cargo.toml"],[("strict checks",M+"flags.rs Flags::validate, "+M+"challenge.rs deserialize")],["decode verdict"],HD)
p("C25","Fixed-size structures have their specified layout",
  "Version, file time, single-host data, pair flags, message signature and the LM and NT responses encode to their specified little-endian layout and decode back to the same value for every field value. Decoding refuses a version whose reserved bytes are not zero or whose revision is not 15, pair flags with undefined bits, single-host data with a non-zero reserved field, and a signature whose version is not 1.",
  ["inputs"],"all values of each field at byte granularity, all reserved values in the alphabet",
  "Tests check Rust type sizes and one NTLMv2 blob.",
  [M+"structures/version.rs",M+"structures/filetime.rs",M+"structures/single_host_data.rs",M+"structures/avid.rs",M+"structures/signature.rs",M+"structures/lm_challenge.rs",M+"structures/nt_challenge.rs",M+"structures.rs"],
  [("structure codecs","serialize_into/deserialize in src/messages/structures/")],["encoded bytes and decoded value"],HD)
p("C26","Clients do not influence each other",
  "When the handshakes of several clients are interleaved in any order, and moved between threads in any way between calls, each client sends exactly the messages it would send alone with the same challenge, clock and random data.",
  ["schedules","histories"],"all interleavings of the calls of two and three clients, all assignments of calls to two threads, preemption inside of calls at requests to the operating system, at atomic operations and at accesses to shared static memory up to a bound on preemptions",
  "No test uses two clients.",
  ["src/client.rs","src/crypto.rs","src/messages/structures.rs"],[("no shared state","all handshake state is owned by src/client.rs Client")],["message bytes of each client, compared with a solo run"],"clock and random source supplied by the harness (link-time stand-ins)")
p("C27","The Windows client relays SSPI tokens exactly and surfaces failures",
  "The Windows SSPI client hands the server's token to the system unchanged and returns exactly the bytes the system produced for each step. When any system call of a step reports failure, the step reports an error and returns no bytes, and no uninitialised memory is ever returned.",
  ["fault_sequences","histories"],"all sequences of system answers (success, continue, complete, failures, token sizes) over two and three steps",
  "The file is not compiled on the test platform at all; its tests need a Windows machine.",
  ["src/win.rs"],[("SSPI calls","src/win.rs WinClient::initialize_security_context")],["bytes returned and arguments received by a stand-in SSPI"],"none: the file is compiled by path against the real windows crate with stand-in SSPI functions")
p("C28","Memory is bounded by the messages at hand",
  "Decoding a message of N bytes, as any message or structure, asks for at most 160 * N + 8192 bytes of memory in total, whatever lengths, offsets and counts the bytes declare, and so does encoding one. A client that repeats the same calls neither holds nor asks for more from one repetition to the next, and once messages and clients are dropped nothing remains allocated on their account.",
  ["inputs","histories"],"all malformed and well-formed inputs of the decoders, repetitions of all short call sequences, clients that come and go",
  "No test measures memory, and none runs more than one handshake.",
  [M+"field.rs",M+"structures/avid.rs",M+"challenge.rs",M+"authenticate.rs","src/client.rs"],
  [("fields are copied once",M+"field.rs Field::get_data_if/get_many_if"),("handshake state is replaced, not added to","src/client.rs Client")],["bytes requested from the allocator"],"decode/encode entry points (cfg http_ntlm_verif); a counting global allocator in the harness")
p("C29","Secrets stay inside of the client",
  "The password, its LM, NT and NTLMv2 hashes, and the session base, key exchange and exported session keys appear neither in clear in a message sent, nor in anything printed to standard output or error, logged at any level, or said in a panic. This holds for every level, CHALLENGE, sequence of calls and setting of environment variables.",
  ["inputs","histories","configurations"],"all short call sequences, CHALLENGE flags, levels, credentials; output captured at the system boundary in raw, hexadecimal, decimal, base64 and debug form",
  "No test looks at output, logs, or at what a message contains besides its fields.",
  ["src/client.rs","src/crypto.rs","src/crypto_ntlmv1.rs","src/crypto_ntlmv2.rs",M+"structures.rs"],
  [("only responses and the encrypted key are sent","src/client.rs send_authenticate")],["message bytes; bytes written to descriptors 1 and 2; log records; panic texts"],"session key of a client (cfg http_ntlm_verif=\"session\"); write, getenv and logger stand-ins in the harness")
p("C30","Encoders deliver everything or report failure",
  "Whatever a destination does when asked to write (take all, take fewer bytes than given, be interrupted, be full, fail at any point), encoding a message or structure either delivers all of its bytes in order and reports their number, or reports an error. On failure the destination holds a prefix of the encoding, the destination's own error is what is reported, and the destination is not written to again.",
  ["fault_sequences","inputs"],"all answer sequences of a destination up to a depth, a fault at every request, for every kind of message and structure",
  "The tests only encode into vectors, which always take everything.",
  [M+"structures.rs",M+"structures/avid.rs",M+"negotiate.rs",M+"challenge.rs",M+"authenticate.rs",M+"field.rs"],
  [("complete writes",M+"structures/avid.rs AvPair::serialize_into"),("structure encoders","serialize_into in src/messages")],["bytes received by a destination, result of encoding"],"encode_to entry points (cfg http_ntlm_verif)")
p("C31","Values keep their content",
  "Messages and structures keep exactly their content when they are made from byte arrays, text or numbers, converted into one another, copied, changed in place and read back: two messages or values are equal exactly when all their parts are, copies are equal to the original, the debug text of a fixed-size value is its bytes in hexadecimal and that of a name the name, and each byte of a value drawn at random is its own byte of the system's random source.",
  ["inputs"],"all byte values at each position of each type, all characters and bounded strings, all pairs of a family of messages that differ in one part, all fault sequences of the random source to a depth",
  "The tests compare a handful of values, which are either equal or entirely different.",
  [M+"structures.rs",M+"unicode_string.rs",M+"structures/version.rs",M+"structures/lm_challenge.rs",M+"structures/nt_challenge.rs",M+"structures/avid.rs"],
  [("fixed-size values",M+"structures.rs buffer_aliases"),("conversions","From and TryFrom implementations in src/messages")],["equality, getters, Debug and Display text"],"random source supplied by the harness (link-time stand-in)")
p("C32","Nothing but its inputs decides what a call does",
  "What a client call, decoder or encoder returns, and whether it returns, is decided by its arguments and the client's earlier calls, the system's random source, the time of day, the variables COMPUTERNAME, USERDOMAIN, COMPUTERDNSNAME and USERDNSDOMAIN, and /etc/hostname, and by nothing else: not by the log level, not by whether standard output and standard error can be written (closed, broken pipe, full disk), not by other environment variables or files, the system's own name, working directory, process, user, time since start or pending error number, nor by the thread that makes the call and whether it has a name, unwinds or ends. Nothing is written to standard output or standard error; diagnostics go to the log facade only.",
  ["inputs","configurations","fault_sequences"],"all handshakes with bounded departures, decodings and encodings x every log level x all the named surroundings and stream failures",
  "The tests run in one environment, without a logger, and with their output captured.",
  ["src/client.rs",M+"field.rs",M+"flags.rs",M+"structures/avid.rs",M+"authenticate.rs",M+"challenge.rs"],
  [("diagnostics","log::warn! in src/messages"),("client calls","src/client.rs Client")],["messages, decoded values, panics; write() on descriptors 1 and 2"],HD)
p("C33","The Windows client gives back what it took from the system",
  "Every credentials handle and every security context that the system gives to a Windows SSPI client is released exactly once, at the latest when the client is dropped or could not be built, and neither is used after its release nor released when the system never gave it. This holds after every sequence of steps, succeeding, failing or abandoned, and whatever the system answers to the releases.",
  ["fault_sequences","histories"],"all sequences of system answers (success, continue, complete, failures) over up to four steps, ended at any point, results of acquiring credentials and targets that cannot be named",
  "The file is not compiled on the test platform at all, and no test looks at what remains with the system.",
  ["src/win.rs"],[("handles","src/win.rs WinClient::new, initialize_security_context, drop")],["handles given and released, as a stand-in SSPI accounts for them"],"none: the file is compiled by path against the real windows crate with stand-in SSPI functions")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
