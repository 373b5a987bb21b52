#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

R = "src/rest_api/"
T = R + "types/"
Q = R + "requests/"
MW = R + "middleware/"

p("C01", "Protocol records survive a trip over the wire",
  "Every request, response and record type of the protocol, serialised to JSON text and parsed back, yields a value equal to the original, whatever strings, numbers, keys, optional fields and list lengths it carries. This also holds for the generic containers and scalars the library lets users put into requests and responses.",
  ["inputs"], "all values of all wire types (including empty, huge, escaped and non-ASCII strings, boundary integers, every enum variant, absent options, empty and long lists)",
  "Unit tests round-trip one or two fixed values per type with ASCII text and mid-range numbers, never through JSON text.",
  [R + "mod.rs", R + "request.rs", R + "response.rs", R + "status.rs", T + "client.rs", T + "message.rs", T + "message_info.rs", Q + "lookup/response.rs", Q + "poll/response.rs"],
  [("AsJson::to_json / from_json pairs", R + "mod.rs and every file under " + T + " and " + Q)],
  ["AsJson::to_json", "AsJson::from_json", "ResponseStatus::to_code/from_code"])

p("C02", "Wire format is exactly the published protocol layout",
  "Every request, response and record is encoded with exactly the field names, nesting, textual encodings, names and status codes of protocol standard 1, and a document written by an independent implementation of that layout is decoded to the value it describes. A document announcing any other standard version, carrying an undefined status code or lacking a required field is rejected.",
  ["inputs"], "all values of all wire types, encoded by the library and, independently, by a reference encoder; all required-field deletions and standard versions",
  "Existing tests only compare the library's encoder with its own decoder, so a matching change on both sides, which breaks interoperability with every deployed peer and every stored file, passes them.",
  [R + "request.rs", R + "response.rs", R + "status.rs", T + "connection_token.rs", T + "connection_certificate.rs", T + "client_type.rs", T + "message_encoding.rs", Q],
  [("to_json/from_json field tables", R + "request.rs, response.rs, " + T + ", " + Q), ("fixed 41-byte connection token", T + "connection_token.rs"), ("url-safe padded base64", "src/crypto/encoding/base64.rs")],
  ["AsJson::to_json", "AsJson::from_json", "ConnectionToken::to_bytes"])

p("C03", "Malformed input is rejected, never crashes a decoder",
  "Any byte string, text or JSON document given to any decoding, parsing, decryption, decompression or verification entry point produces either a value or an error, and never a crash. Base64 text is accepted only in its canonical form, so re-encoding what was decoded gives the same text back, and a decoded value can always be encoded again.",
  ["inputs"], "arbitrary bytes, strings and JSON, and structure-aware mutations of valid documents (dropped, retyped, truncated and spliced fields)",
  "Tests feed valid values only; a remote peer chooses these bytes.",
  [T + "connection_token.rs", "src/crypto/asymmetric/public_key.rs", "src/crypto/asymmetric/secret_key.rs", "src/crypto/encoding/base64.rs", "src/crypto/compression/mod.rs", "src/crypto/encryption/mod.rs", R + "request.rs", R + "response.rs", "src/address.rs"],
  [("length checks before slicing", T + "connection_token.rs: from_bytes"), ("length checks before slicing", "src/crypto/asymmetric/public_key.rs: decode_encapsulated_signature"), ("Result-returning parsers", R)],
  ["from_json of every type", "from_bytes/from_base64", "decode/decompress/decrypt", "FromStr implementations"])

p("C04", "A created message is read back exactly by its receiver",
  "For every payload, sender and receiver, every combination of text encoding, encryption and compression and every compression level, the message a sender creates for a receiver is read by that receiver, naming that sender, as exactly the original bytes. This holds equally after the message has travelled as JSON text, and the secret the sender shares with the receiver decodes the sender's own copy as well.",
  ["inputs", "configurations"], "payloads of any size and structure (empty, incompressible, repetitive, block-boundary and megabyte-sized), all key pairs, 9 encodings x 3 levels",
  "Tests read one 13-byte payload at one compression level.",
  [T + "message.rs", T + "message_encoding.rs", "src/crypto/compression/mod.rs", "src/crypto/encryption/mod.rs", "src/crypto/encoding/mod.rs", "src/crypto/asymmetric/secret_key.rs"],
  [("forward = compress, encrypt, encode; backward = inverse order", T + "message_encoding.rs"), ("shared secret and signature", T + "message.rs: create/read")],
  ["Message::create", "Message::read", "MessageEncoding::forward/backward"])

p("C05", "Reading never yields content the named sender did not sign",
  "However a message's content, signature, encoding label or claimed sender is altered, and whoever tries to read it, reading either fails or returns exactly the bytes the named sender signed. With encryption on, nobody but the two parties obtains the content or a successful read, and any altered ciphertext is refused.",
  ["inputs"], "all valid messages x all alterations of content, signature, encoding label, claimed sender, reader (bit flips, truncations, splices between messages, relabelling, foreign keys)",
  "Tests only read intact messages with the right keys.",
  [T + "message.rs", "src/crypto/asymmetric/public_key.rs", "src/crypto/encryption/aes256_gcm.rs", "src/crypto/encryption/chacha20_poly1305.rs"],
  [("signature over the plaintext verified on read", T + "message.rs: read"), ("AEAD tags", "src/crypto/encryption/")],
  ["Message::read"])

p("C06", "Encryption follows the standard algorithms, nonces and derived key",
  "For every payload and key, the bytes produced under each encryption setting equal those of an independent implementation of the named authenticated cipher with the protocol's fixed nonce, and the pairwise key equals HKDF-SHA256 over the secp256k1 shared point with the protocol's constants and the given salt. Data encrypted by an independent peer is decrypted, and a different key or altered byte is refused.",
  ["inputs"], "all payloads, keys, salts and ciphers",
  "Tests only check that encryption and decryption of this library invert each other, which a wrong nonce, key, constant or cipher on both sides also satisfies.",
  ["src/crypto/encryption/aes256_gcm.rs", "src/crypto/encryption/chacha20_poly1305.rs", "src/crypto/encryption/mod.rs", "src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/mod.rs"],
  [("NONCE constants", "src/crypto/encryption/*.rs"), ("HKDF_INFO", "src/crypto/asymmetric/mod.rs"), ("create_shared_secret", "src/crypto/asymmetric/secret_key.rs")],
  ["Encryption::encrypt/decrypt", "SecretKey::create_shared_secret", "Message::create"])

p("C07", "Compression and text encoding are lossless and interoperable",
  "For every byte string and every level, decompressing what was compressed and decoding what was encoded gives back exactly the same bytes. The output is a standard raw DEFLATE stream, Brotli stream or padded url-safe base64 text that an independent codec reads to the same bytes, and streams made by an independent codec are read too.",
  ["inputs", "configurations"], "all byte strings (empty to megabytes, random to highly repetitive) x algorithm x level",
  "Tests use one 13-byte string.",
  ["src/crypto/compression/deflate.rs", "src/crypto/compression/brotli.rs", "src/crypto/compression/mod.rs", "src/crypto/encoding/base64.rs", "src/crypto/encoding/mod.rs"],
  [("compress/decompress pairs", "src/crypto/compression/"), ("BASE64 engine", "src/crypto/encoding/base64.rs")],
  ["Compression::compress/decompress", "Encoding::encode/decode", "module functions"])

p("C08", "Algorithm and type names parse back to what they print",
  "Every encoding, encryption, compression, message encoding and client type prints to its protocol name and that name, and every documented alias and abbreviated form, parses back to the same choice. No other text is accepted as a name, so a label never silently selects another algorithm.",
  ["inputs", "configurations"], "all values and combinations; all strings near the valid names (case, whitespace, extra or missing separators, swapped parts, prefixes)",
  "Tests check the nine canonical labels and one invalid word; near-miss labels are not tried.",
  [T + "message_encoding.rs", T + "client_type.rs", "src/crypto/encoding/mod.rs", "src/crypto/encryption/mod.rs", "src/crypto/compression/mod.rs"],
  [("Display/FromStr pairs", "the files above")],
  ["Display", "FromStr"])

p("C09", "Keys round-trip, agree pairwise and differ across pairs",
  "Every secret and public key survives its byte and text forms unchanged, with a fixed 33-byte compressed public form, and bytes that are not a valid key are refused. Any two parties derive the same shared secret from each other's public key under the same salt, and different pairs or salts give different secrets.",
  ["inputs"], "all valid scalars (including the smallest and largest), all byte strings of valid and invalid length or off the curve, all salts",
  "Tests use a random mid-range key and no salt, one pair at a time.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs"],
  [("serialize/deserialize, to_bytes/from_bytes, base64 forms", "src/crypto/asymmetric/"), ("create_shared_secret", "src/crypto/asymmetric/secret_key.rs")],
  ["SecretKey", "PublicKey"])

p("C10", "Signatures verify for exactly the signed message and key",
  "A signature made by a key verifies under its public key for the signed message, and for no other message, no other key and no altered signature. A signature bundled with its message yields that message only while intact and under the signer's key; any other bundle yields nothing or an error.",
  ["inputs"], "all messages (including empty and long), keys, and all single-byte, truncating, splicing and length-prefix alterations",
  "Tests sign and verify one fixed message with the right key and never try an altered one.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs"],
  [("create_signature/verify_signature", "src/crypto/asymmetric/"), ("length-prefixed capsule", "create_encapsulated_signature/decode_encapsulated_signature")],
  ["verify_signature", "decode_encapsulated_signature"])

p("C11", "A request validates only if its sender's key signed its proof",
  "A request of any kind validates exactly when its proof seed has its top bit set and its proof signature is the claimed public key's signature over that seed; connect requests additionally need a certificate from that same key for the receiving server, and client announcements a certificate from the announced client for the announced server. Every request built by the library validates, before and after travelling as JSON.",
  ["inputs"], "all request kinds x all alterations of seed, signature, public key, certificate, announced client and server, including splices between two valid requests",
  "Tests check three alterations of one header kind; certificates inside connect and announce requests are never altered.",
  [R + "request.rs", Q + "connect/mod.rs", Q + "announce/mod.rs", Q + "disconnect/mod.rs", Q + "lookup/mod.rs", Q + "send/mod.rs", Q + "poll/mod.rs"],
  [("Request::validate", R + "request.rs"), ("ConnectRequest::validate", Q + "connect/mod.rs"), ("AnnounceRequest::validate", Q + "announce/mod.rs")],
  ["*Request::validate"])

p("C12", "A certificate proves one client's connection to one server",
  "A connection certificate validates exactly when the client's key signed that very token (date and server key) and the token names that server. Changing the date, the server, the signature or the claimed client makes it invalid, and its binary and JSON forms preserve it.",
  ["inputs"], "all dates, keys and alterations, including splices between certificates of different clients, servers and dates",
  "There is no negative test for certificates at all.",
  [T + "connection_certificate.rs", T + "connection_token.rs"],
  [("ConnectionCertificate::validate", T + "connection_certificate.rs"), ("ConnectionToken::to_bytes/from_bytes", T + "connection_token.rs")],
  ["ConnectionCertificate::validate", "ConnectionToken"])

p("C13", "A success reply validates only if its responder signed the seed",
  "A success response of any kind validates against a seed exactly when that seed has its top bit set and the response carries the claimed responder key's signature over exactly that seed; a server information document validates by the same rule against the seed it carries. Error responses always validate and never turn into successes, nor successes into errors, on the wire.",
  ["inputs"], "all response kinds and statuses x all alterations of seed, signature and key",
  "Tests do not validate a single response outside the doc examples' happy path.",
  [R + "response.rs", R + "status.rs", Q + "info/response.rs", Q + "lookup/mod.rs", Q + "poll/mod.rs", Q + "send/mod.rs"],
  [("Response::validate", R + "response.rs"), ("InfoResponse::validate", Q + "info/response.rs")],
  ["*Response::validate", "InfoResponse::validate"])

p("C14", "Proof seeds and generated keys are fresh and full-range",
  "Every proof seed the library draws has its top bit set and unpredictable remaining bits, so no two requests or server information documents, from the same or different clients, share a seed. Randomly generated secret keys likewise never repeat.",
  ["inputs", "histories"], "all sequences of request and document constructions",
  "Tests draw a handful of values and never compare them.",
  ["src/crypto/utils.rs", R + "request.rs", Q + "info/response.rs", "src/crypto/asymmetric/secret_key.rs"],
  [("safe_random_u64_long", "src/crypto/utils.rs"), ("Request::new", R + "request.rs"), ("SecretKey::random", "src/crypto/asymmetric/secret_key.rs")],
  ["Request.proof_seed", "InfoResponse.proof_seed", "safe_random_u64_long", "SecretKey::random"])

p("C15", "Only properly signed requests change what a server holds",
  "Over any history of genuine and forged requests, a server's clients, announced records, server list and message inboxes are exactly those produced by the genuine ones, each applied on behalf of the key that signed it. A forged request (bad proof, bad seed, foreign or missing certificate) is answered with an error and leaves everything unchanged; in particular nobody can disconnect or drain the inbox of another key.",
  ["histories", "inputs"], "all interleavings of connect, disconnect, announce, lookup, send and poll requests from several clients, genuine or forged in any field",
  "The request handlers have no test at all.",
  [MW + "server.rs", Q + "connect/mod.rs", Q + "announce/mod.rs"],
  [("validate-then-apply in each handler", MW + "server.rs")],
  ["server handlers", "router and inbox contents"],
  state=[{"name": "routing table and inbox", "meaning": "what the server holds", "where": "src/drivers/server/"}])

p("C16", "A success reply is provable and means the request took effect",
  "A server answers with success only if the operation took effect in its storage, and then the reply carries its own key's signature over the seed of that very request. When validation or the storage fails, the reply is an error with a failure status and a reason.",
  ["histories", "fault_sequences"], "all request histories x all positions at which the storage behind the handlers fails",
  "The request handlers have no test at all, and no test injects a failing storage.",
  [MW + "server.rs", R + "response.rs", "src/drivers/server/server.rs"],
  [("error mapping in each handler", MW + "server.rs"), ("*Response::success signs the seed", Q)],
  ["server handlers' replies"])

p("C17", "Lookup answers about the client that was asked for",
  "For any routing state, requester, target and type filter, a server answers a lookup with the record of the requested client: as local if it is connected here, as remote with its announced server if it is known by announcement (the newer certificate if both), filtered by the requested type. Only if it knows no matching record does it return hints, and then they list all the servers it knows.",
  ["inputs", "histories"], "all routing states, all pairs of requester and target, all filters",
  "The lookup handler has no test; the router is only tested with a list holding a single client.",
  [MW + "server.rs", "src/drivers/server/router/mod.rs", "src/drivers/server/router/global_table.rs", Q + "lookup/request.rs"],
  [("lookup handler", MW + "server.rs"), ("lookup_local_client / lookup_remote_client / lookup_remote_client_hint", "src/drivers/server/router/mod.rs")],
  ["POST /api/v1/lookup", "Router lookups"])

p("C18", "The newest connection certificate wins, in any arrival order",
  "When a server learns several records of one client connected to different servers, by connection or announcement and in any order, a lookup serves the record whose certificate is newest, and an older announcement never replaces a newer one. Replaying an old signed announcement therefore cannot redirect a client's traffic.",
  ["histories"], "all orders and repetitions of connects and announcements of the same clients with different certificate dates and servers",
  "No test indexes two different records of one client.",
  ["src/drivers/server/router/global_table.rs", MW + "server.rs", Q + "connect/mod.rs", T + "connection_token.rs"],
  [("certificate date comparison when indexing", "src/drivers/server/router/global_table.rs: index_remote_client"), ("newest of local and remote record served", MW + "server.rs: lookup"), ("documented rule", Q + "connect/mod.rs: ConnectRequest")],
  ["POST /api/v1/announce", "POST /api/v1/lookup", "Router::lookup_remote_client"])

p("C19", "The routing table reflects its history and survives restarts",
  "After any sequence of indexings and disconnections, the stored routing table lists and finds exactly the records last indexed for each client and server (for announced clients, the last among those with the newest certificate) and not since disconnected, with every field intact. Disconnecting a key removes everything known about that key and nothing about any other, and reopening the storage changes nothing.",
  ["histories"], "all operation sequences over several keys with arbitrary record contents, with reopening at any point",
  "One test indexes the same client 32 times and looks it up; disconnect, reopening, several keys and overwriting are never exercised.",
  ["src/drivers/server/router/global_table.rs", "src/drivers/server/router/mod.rs"],
  [("one file per record", "src/drivers/server/router/global_table.rs"), ("default lookups over the lists", "src/drivers/server/router/mod.rs")],
  ["Router trait of GlobalTableRouter", "Router trait defaults"],
  state=[{"name": "local/, remote/, servers/ folders", "meaning": "persistent routing table", "where": "storage_folder"}])

p("C20", "Routing table stays readable through crashes, faults and concurrency",
  "If the process stops or a file operation fails at any point of an indexing or disconnection, every other record stays listed and intact, the affected record is either the old or the new one, and listing and lookup keep working after a restart. While records are being written or removed concurrently, every listing succeeds and reports each untouched record, and an operation that reports success has taken effect.",
  ["crash_points", "fault_sequences", "schedules"], "every file-system step of every operation as crash or failure point; all interleavings of concurrent writers and readers at file-system-step granularity",
  "Tests run operations one at a time on a healthy disk.",
  ["src/drivers/server/router/global_table.rs"],
  [("write aside and rename", "src/drivers/server/router/global_table.rs"), ("records that vanish during listing are skipped", "src/drivers/server/router/global_table.rs")],
  ["Router trait of GlobalTableRouter after faults"])

p("C21", "The inbox delivers each message once, in order, to its addressee",
  "For any sequence of sends and polls over any receivers and channels, a poll returns the oldest unread messages of exactly that receiver and channel, in sending order, no more than the limit, each intact with its sender and channel, and removes exactly those. The reported remaining count equals the number still stored, and reopening the storage changes nothing.",
  ["histories", "inputs"], "all send/poll/reopen sequences with any receivers, channels, contents and limits (absent, zero, exact, larger than stored, maximal)",
  "One test sends five messages to one receiver and polls with limits 1, 2 and none.",
  ["src/drivers/server/messages_inbox/stored_queue.rs", "src/drivers/server/messages_inbox/mod.rs"],
  [("index file of message ids", "src/drivers/server/messages_inbox/stored_queue.rs")],
  ["MessagesInbox::add_message", "MessagesInbox::poll_messages"],
  state=[{"name": "index + message files", "meaning": "per receiver and channel queue", "where": "storage_folder/<receiver>/<channel>"}])

p("C22", "No channel name reaches outside its own queue",
  "Whatever text is used as a channel name (path separators, dot segments, absolute paths, names of storage files, other receivers' keys, control characters, empty or very long), sending to it and polling it affects only that receiver's queue of that exact name. It never reads, changes or deletes another queue, another receiver's messages or any file outside the inbox storage, and messages sent to it can be polled under the same name.",
  ["inputs", "histories"], "all channel names chosen by a remote peer, in all send/poll sequences",
  "Tests use two plain channel names.",
  ["src/drivers/server/messages_inbox/stored_queue.rs", MW + "server.rs"],
  [("channel name mapped to one path component", "src/drivers/server/messages_inbox/stored_queue.rs")],
  ["files touched", "MessagesInbox::poll_messages"])

p("C23", "Concurrent sends and polls lose and duplicate nothing",
  "Whatever the interleaving of concurrent sends and polls on one inbox, every message whose send succeeded is returned by exactly one poll, no poll fails or returns a foreign message, and messages of one sender that were sent one after another are delivered in that order. What each poll gives and the number of messages it tells remaining are what some order of the operations, one by one, would give. Concurrent use of different queues never interferes, nor does opening the inbox again meanwhile.",
  ["schedules", "histories"], "all interleavings, at file-system-step granularity, of a few concurrent sends and polls on shared and distinct queues, followed by a drain",
  "The only test is sequential; the web server runs handlers in parallel.",
  ["src/drivers/server/messages_inbox/stored_queue.rs"],
  [("mutual exclusion around the read-modify-write of the index", "src/drivers/server/messages_inbox/stored_queue.rs")],
  ["MessagesInbox::add_message/poll_messages under concurrency"])

p("C24", "Queued messages survive crashes and failing file operations",
  "If the process stops at any point during a send or poll, then after a restart every earlier accepted and unpolled message is still delivered once and in order, except that messages selected by the interrupted poll may be gone and the interrupted send may or may not be there. If a single file operation fails instead, the call either succeeds or reports an error, a failed poll loses no message, and the queue keeps working.",
  ["crash_points", "fault_sequences", "histories"], "every file-system step of sends and polls as crash point (including torn writes) or failing operation, over generated histories",
  "Tests run on a healthy disk and never stop midway.",
  ["src/drivers/server/messages_inbox/stored_queue.rs"],
  [("message stored before it is indexed; index replaced atomically; files removed after the index", "src/drivers/server/messages_inbox/stored_queue.rs")],
  ["MessagesInbox after restart"])

p("C25", "Client lookup ends and finds what reachable servers know",
  "On any network of servers, cyclic or not, including unreachable servers and ones sending wrongly signed, malformed or failing replies, a client's lookup ends after a bounded number of requests. If the server it is connected to answers, the lookup returns a record some server reachable through validly signed replies gave for the requested client if there is one, and nothing otherwise.",
  ["inputs", "fault_sequences"], "all hint graphs, placements of the client's record, and dead, failing or unsigned servers",
  "The client middleware has no test.",
  [MW + "client.rs"],
  [("hint queue with used-server set", MW + "client.rs: lookup")],
  ["ConnectedClient::lookup"])

p("C26", "Network traversal ends and indexes every reachable server",
  "On any network of servers, cyclic or not and including unreachable or failing servers, a traversal ends after a bounded number of requests. Afterwards the routing table holds every server that is reachable from the initially known ones through responsive servers, and no server that nobody mentioned.",
  ["inputs", "fault_sequences"], "all server graphs, with self references, cycles, duplicates and failing servers",
  "The traversal has no test.",
  ["src/drivers/server/traversal/bfs_recursion.rs"],
  [("queue of servers with a visited set", "src/drivers/server/traversal/bfs_recursion.rs")],
  ["Traversal::traverse", "Router::servers"])

p("C27", "A client accepts only replies its server signed for that request",
  "Connecting, disconnecting, polling, sending, announcing and querying server information succeed at the client only if the reply is a success carrying a valid signature over the seed sent in that request, and for connecting, polling and disconnecting only if it was signed by the key of the server the client addressed. Every other reply (wrong seed, wrong key, replayed, forged, error status, malformed, none) is reported as an error, and genuine content is returned unaltered.",
  ["inputs", "fault_sequences"], "all client operations x all genuine, replayed, altered, malformed and failing replies",
  "The client middleware has no test.",
  [MW + "client.rs", MW + "mod.rs", R + "response.rs"],
  [("response.validate(proof_seed)", MW + "client.rs"), ("responder key compared with the expected server key", MW + "client.rs")],
  ["Client and ConnectedClient methods"])

p("C28", "Messages travel end to end between clients of real servers",
  "Over real HTTP, whatever clients connect to whichever servers, every message sent to a client's server is polled there by that client, once and in order, decrypts to the original payload, and names the true sender: its key, client information, certificate and server. Polled limits and remaining counts hold, and lookups and disconnections are reflected in what others then see.",
  ["histories"], "all histories of connect, announce, lookup, send, poll and disconnect by several clients on several servers",
  "No test starts a server or sends a request.",
  [MW + "client.rs", MW + "server.rs", "src/http/client.rs", "src/http/server.rs"],
  [("client and server middleware", MW), ("HTTP adaptors", "src/http/")],
  ["ConnectedClient::poll", "ConnectedClient::lookup"])

p("C29", "Every supported address form resolves to the right endpoint",
  "Each documented address form parses to the client key and type or web address it denotes, invalid keys are refused, and text without a scheme is kept verbatim. Resolving gives the web address itself, or for a client address the current address of the server on which that client, of that type, is found, and an error if it is not found.",
  ["inputs"], "all documented patterns x keys x web addresses with ports, paths, queries and further separators, plus near misses; all lookup outcomes",
  "Tests parse one host name and one key per pattern and never resolve.",
  ["src/address.rs"],
  [("Address::from_str", "src/address.rs"), ("Address::resolve", "src/address.rs")],
  ["parse", "resolve"])

p("C30", "Port forwards are opened and withdrawn exactly as requested",
  "After any sequence of open, close and discard calls, with or without gateway failures, the gateway holds exactly the forwards that were successfully opened and not successfully closed since, for one or both protocols, each with its last requested lease time. Withdrawing everything removes every forward made, and a forward whose withdrawal failed is withdrawn when tried again. Forwards that others hold at the gateway are left alone.",
  ["histories", "fault_sequences"], "all call sequences over ports, protocols and durations x gateway failure patterns",
  "Port forwarding has no test; it needs a gateway.",
  ["src/port_forward/upnp.rs", "src/port_forward/mod.rs"],
  [("table of made forwards", "src/port_forward/upnp.rs")],
  ["PortForwarder calls at the gateway"],
  state=[{"name": "forwarded", "meaning": "forwards made and not yet withdrawn", "where": "src/port_forward/upnp.rs"}])

p("C31", "Types offered for serde serialisation deserialise to themselves",
  "Every type the library makes serialisable by its serde feature, keys included, is deserialised from its own serialised form to an equal value, whatever it contains. Invalid serialised forms are errors, never crashes.",
  ["inputs"], "all values of all such types through a self-describing text format and in-memory value trees; mutated documents",
  "No test serialises any type through serde.",
  ["src/crypto/asymmetric/secret_key.rs", "src/crypto/asymmetric/public_key.rs", R, T, Q],
  [("manual Serialize/Deserialize of the secret key", "src/crypto/asymmetric/secret_key.rs"), ("derives", R)],
  ["serde::Serialize/Deserialize"])

p("C32", "Secret keys and encrypted payloads are never exposed",
  "Over any history of client and server operations, no secret key and no shared secret appears, in raw or any textual form, in anything sent over the network or stored on disk. The payload of a message sent with encryption never appears in clear there either.",
  ["histories"], "all histories of all client and server operations with all encodings; everything sent and stored is searched",
  "Tests compare fields for equality and never look at what else is sent or stored.",
  [MW + "client.rs", MW + "server.rs", T, "src/drivers/server/router/global_table.rs", "src/drivers/server/messages_inbox/stored_queue.rs"],
  [("only public keys and signatures are serialised", T + " and " + Q), ("message encryption", T + "message.rs")],
  ["HTTP bodies and URLs", "files in the storage folders"])

p("C33", "The HTTP adaptors hand over each request and reply unaltered",
  "For any registered routes, each well-formed request reaches exactly the handler of its method and path once, with the value that was sent, and its caller receives exactly the value the handler returned. A body that is not a valid document for the route gets an HTTP error without the handler running, the server keeps serving, and a failing or bodiless reply is an error at the client.",
  ["inputs", "histories"], "all route sets, request values and raw bodies, sequentially and concurrently",
  "The HTTP adaptors are compiled but never run by a test.",
  ["src/http/server.rs", "src/http/client.rs"],
  [("AxumHttpServer get/post", "src/http/server.rs"), ("HttpClient::get_request/post_request", "src/http/client.rs")],
  ["HttpServer handlers", "HttpClient results"])

p("C34", "Certificates and messages are dated when they are made",
  "A connection token, certificate or connect request made for the current moment bears the date the clock shows then, and a stored message is told to be received on the date its server accepted it. Whatever the clock shows later, moved back or forth, neither date changes: not by waiting in a queue, by restarts of the server, nor by being polled or presented again.",
  ["histories", "configurations"], "all histories of connections, sends, polls and restarts x all movements of the wall clock",
  "No test looks at a date, and none runs with another clock than the machine's.",
  [T + "connection_token.rs", T + "connection_certificate.rs", T + "message_info.rs", "src/drivers/server/messages_inbox/stored_queue.rs", "src/time.rs"],
  [("timestamp() in token and message constructors", "src/time.rs"), ("received_at stored along with the message", "src/drivers/server/messages_inbox/stored_queue.rs")],
  ["ConnectionCertificate::new", "ConnectRequest::new", "poll responses"])

p("C35", "Requests served at once leave what serving them one by one would",
  "When a server handles several requests at the same time, each is answered on its own behalf: a forged one is refused, a genuine one succeeds with a proof over its own seed. What the server then holds of each client, server and queue, and what the polls have told, is what handling the requests one after another in some order would give, and lookups never tell of records that were never there or miss what has been there all the time.",
  ["schedules"], "all small batches of requests over all prior states x all interleavings of their file operations and suspension points",
  "No test makes two requests to a server, let alone at once.",
  [MW + "server.rs", "src/drivers/server/router/global_table.rs", "src/drivers/server/messages_inbox/stored_queue.rs"],
  [("request handlers sharing one driver", MW + "server.rs"), ("locks of queues and of the remote table", "src/drivers/server/")],
  ["server's responses", "storage contents"])

p("C36", "Calls made at once by a client each get their own answer",
  "When calls of the same clients and connections run at the same time, in whatever order their requests and replies travel, each makes its own proven request, and gives what its own server answered to it: a genuine answer is taken, a forged, failing or missing one affects that call only.",
  ["schedules", "inputs"], "all batches of client calls x all delays of requests and replies x all kinds of answers",
  "The client middleware has no test.",
  [MW + "client.rs"],
  [("proof seed kept per call", MW + "client.rs")],
  ["Client and ConnectedClient methods"])

p("C37", "What the library builds says exactly what it was told",
  "Every record, request, response and driver made by a constructor carries precisely the parts given to it: keys, addresses, channels, limits, statuses, reasons and contents get to their own places unchanged, nothing else is added, and parts which the constructor makes itself are sound - the seed is a long one, the signature is the author's over it, the certificate is the client's for the very server. A server acting as a client presents its own key and address.",
  ["inputs"], "all arguments of all constructors",
  "Tests build a few fixed values and never compare them with an independent document.",
  [T, "src/rest_api/requests/", "src/rest_api/request.rs", "src/rest_api/response.rs", "src/drivers/"],
  [("constructors of requests and their bodies", "src/rest_api/requests/"), ("ServerDriver::as_client", "src/drivers/server/server.rs")],
  ["constructors", "to_json of what they made"])

p("C38", "Records and keys are equal exactly when they say the same",
  "Two values of one type - keys, certificates, clients, servers, messages, requests, responses, drivers - are equal if and only if all their parts are, equal ones have equal hashes, and a copy equals its original. Sets and maps of them therefore neither lose nor repeat anybody, even for keys whose points share a coordinate.",
  ["inputs"], "all pairs and small collections of values, equal or different in a single part",
  "Tests compare values which are the same or wholly different.",
  [T, "src/rest_api/requests/", "src/crypto/asymmetric/", "src/drivers/"],
  [("PartialEq and Hash of keys", "src/crypto/asymmetric/"), ("derived comparisons of records", "src/rest_api/")],
  ["==, hash and clone of public types"])

p("C39", "Storage keeps what is held and nothing else",
  "What was disconnected, replaced by a newer record, refused as outdated or delivered to its receiver is gone from the storage folders: no file keeps its text, and files do not pile up beyond what the held records and messages need. Looking up and listing records changes no stored file, and opening the folders again takes nothing away.",
  ["histories"], "all histories of indexing, disconnecting, sending, polling, looking up and reopening",
  "Tests look at what a call returns, never at what remains in the folders.",
  ["src/drivers/server/router/global_table.rs", "src/drivers/server/messages_inbox/stored_queue.rs"],
  [("removal of delivered messages", "src/drivers/server/messages_inbox/stored_queue.rs"), ("removal and replacement of records", "src/drivers/server/router/global_table.rs")],
  ["files of the storage folders"])

p("C40", "A request given up by its caller is done or not done",
  "When the caller of a request goes away before the reply - and its handling is dropped at any point where it waits - each record and queue is either untouched or as the finished request would leave it, nothing is done by halves and no lock or mark is left behind: the same and any other request, made at once or later, is served as if the first one had either been finished or never made.",
  ["schedules", "histories"], "all histories of genuine requests x all points at which some of them are given up, followed by others at once or after the background work has ended",
  "Tests always wait for the reply; the web server drops a handler when its client disconnects.",
  [MW + "server.rs", "src/drivers/server/router/global_table.rs", "src/drivers/server/messages_inbox/stored_queue.rs"],
  [("storage operations run to their end in the background", "src/drivers/server/"), ("request handlers", MW + "server.rs")],
  ["storage contents", "server's responses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
