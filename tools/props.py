# One entry per property: the source of properties.jsonl and MANIFEST.json.
P = []


def prop(id, title, statement, over, quant, why, files, mech, tech, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, level=level, note=note))


RPC_NOTE = "Exhaustive within the deviation budget, on the real client code under a virtual clock, a fake network and a model server that validates every packet; trusts the model server and the assumption that a connection delivers packets in order."

prop("R01", "Every call settles exactly once with its own outcome",
     "Every request invoked on an encrypted connection eventually settles when the server answers what it receives: with the result or error the server gave for that very request, or with a connection error only if the connection was lost or closed while it was in progress. This holds whatever the order, packing or compression of answers, and across refused salts, refused message identifiers, invalidated sessions, lost connections, slow sends and slow encryption. A request is transmitted again only after the server refused it, the session was invalidated, or its connection was lost, and no rejection is left unhandled.",
     ["schedules", "fault_sequences", "histories"], "all interleavings of calls, answers, refusals, losses, send and encryption completions up to the deviation budget",
     "The tests never run a session; the outcome depends on the interleaving of send loop, receive loop, reconnects and server decisions.",
     ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts", "session/1_session.ts"],
     [("pending, sent and container bookkeeping", "session/2_session_encrypted.ts"), ("request table and resending", "client/2_client_encrypted.ts")],
     "stateless model checking of the real client against a model server (DFS over schedules with a deviation bound)", "model_checking", RPC_NOTE)

prop("R02", "Outgoing messages obey the MTProto numbering and envelope rules",
     "Within a session, message identifiers of outgoing messages are divisible by four and strictly increase even when the clock stands still or moves back, a container is numbered after its content, and sequence numbers count content-related messages exactly (odd for content, even otherwise). Every packet carries the right key identifier and message key, 12 to 1024 bytes of padding, and the salt the server last announced. When the server rejects identifiers because the clocks differ, the client corrects itself and the call succeeds.",
     ["histories", "schedules", "inputs"], "all sequences of calls, pushes, refusals, clock steps and session changes within the budget, for fourteen clock differences",
     "No test sends two messages through a session, moves the clock or refuses a message.",
     ["session/0_session_state.ts", "session/2_session_encrypted.ts"],
     [("message identifier and sequence number generation", "session/0_session_state.ts"), ("encryption and containers", "session/2_session_encrypted.ts")],
     "stateless model checking with a validating model server", "model_checking", RPC_NOTE)

prop("R03", "Received content messages are acknowledged, and only those",
     "Every content-related message the client receives (results, updates, new-session notices, pongs, and answers announced through detailed-info messages), alone or inside a container, is acknowledged with a later outgoing packet. An acknowledgement whose packet the server refused is sent again, and nothing is acknowledged that the server did not send or announce.",
     ["schedules", "histories", "fault_sequences"], "all sequences of server messages, refusals and losses within the budget, followed by one more call",
     "No test looks at acknowledgements.",
     ["session/2_session_encrypted.ts"],
     [("acknowledgement queue", "session/2_session_encrypted.ts")],
     "stateless model checking with a validating model server", "model_checking", RPC_NOTE)

prop("R04", "Forged or foreign packets have no effect",
     "A packet that is not exactly one the server sealed for the current session under the authorization key (altered in any byte, truncated, spliced, reflected, unencrypted, sealed under another key or for another session) never settles a call, delivers an update or changes the salt. The client keeps working afterwards: pending calls still get their genuine answers.",
     ["inputs", "fault_sequences"], "every byte alteration, truncation, block splice, wrong key, direction and session for five kinds of packets",
     "No test feeds an encrypted packet to a session.",
     ["session/2_session_encrypted.ts"],
     [("message key, key identifier and session verification", "session/2_session_encrypted.ts")],
     "exhaustive enumeration of packet corruptions against the real client", "fault_enumeration", "Complete over single alterations of the sample packets; relies on the hash functions for alterations of several bytes.")

prop("R05", "The connection follows the application's last wish",
     "After a successful connect the client re-establishes a lost connection by itself, also when attempts are refused or the session had to be replaced, and calls made meanwhile wait and succeed. After disconnect no connection stays or becomes open and no further attempt is made, even when an attempt was in progress, until connect is called again. At most one connection is open at a time, and state notifications alternate and end with the actual state.",
     ["schedules", "fault_sequences", "histories"], "all sequences of connects, disconnects, accepted and refused opens, losses, timers and refusals up to the deviation budget",
     "No test opens a session; timers and reconnects interleave with user actions.",
     ["session/1_session.ts", "session/2_session_encrypted.ts", "client/2_client_encrypted.ts"],
     [("reconnection and connect mutex", "session/1_session.ts"), ("loops started and aborted", "session/2_session_encrypted.ts")],
     "stateless model checking of the real client over a fake network", "model_checking", RPC_NOTE)

prop("R06", "Key exchange: agreement with an honest server, rejection of anything else",
     "Creating an authorization key with an honest server ends, for permanent and temporary keys, whatever the random numbers, nonces, pq, generator and data center, with client and server holding the same 256-byte key and first salt. Every request of the exchange is well-formed, and a g_b out of the safe range is never sent. The client accepts no answer whose nonces, hashes, prime, generator, g_a range, new_nonce_hash or constructor are wrong, and never ends up with a key the server does not share. Lost connections, refused attempts and a server asking to retry only delay connect(); with perfect forward secrecy the temporary key is validly bound to the permanent one before any other request, also when time passes meanwhile. Disconnecting during the exchange leaves nothing open.",
     ["inputs", "fault_sequences", "schedules"], "all combinations of boundary values, every altered field and byte of every answer, all fault sequences within the budget",
     "The tests never run the exchange; correctness depends on rare number shapes and on adversarial answers.",
     ["client/1_client_plain.ts", "client/2_client_encrypted.ts", "utilities/1_auth.ts", "session/2_session_plain.ts"],
     [("key exchange", "client/1_client_plain.ts"), ("retries and temporary key binding", "client/2_client_encrypted.ts"), ("RSA padding", "utilities/1_auth.ts")],
     "exhaustive enumeration of exchanges and fault sequences on the real client against a validating model server", "fault_enumeration", "Complete over the stated values, alterations and fault sequences; cryptographic primitives of the oracle are trusted.")

prop("R07", "Perfect forward secrecy is kept over time, and without being noticed",
     "With perfect forward secrecy enabled, every request to every data center goes under a temporary key that was bound there to the permanent key before, never under the permanent key, an unbound or an expired one (unless the process was suspended); the parameters of the client are told under each. Keys are replaced before they expire and after the server forgot them. Calls succeed as without it: those made while a connection is set up wait, those pending while a key is replaced succeed or fail, and later ones succeed. Losses, refusals and disconnecting at any moment of making or binding keys only delay this, restarts make no further permanent keys, updates sent while a key was replaced are asked for, and connecting again changes nothing about an open session.",
     ["schedules", "fault_sequences", "histories"], "every order of packets of different connections, and every moment of a loss, refusal, call or disconnection within the deviation budget, over scripts of calls in which days pass, computers sleep, clients restart and servers forget keys",
     "The tests never connect; temporary keys are replaced once a day, while calls are being made.",
     ["client/2_client_encrypted.ts", "client/6_client.ts", "session/1_session.ts"],
     [("binding and replacing temporary keys", "client/2_client_encrypted.ts"), ("reports of lost connections", "session/1_session.ts")],
     "stateless model checking of the real client over model data centers", "model_checking", "Exhaustive within the deviation budget over the listed scripts; trusts the model data centers.")

prop("R08", "Open connections are kept alive",
     "While a connection is open, the client sends a ping at most 56 seconds after it was opened or the last ping was answered or refused, and in time before the moment at which the server was asked to close the connection unless another ping comes, so that a server that answers what it receives never closes an idle connection. This holds after pings are refused (because of the salt, the time or the session), after connections are lost or refused while a ping is pending, and after disconnecting and connecting again. There are no more pings than that takes, and after disconnecting nothing goes on waiting to send one.",
     ["schedules", "fault_sequences", "histories"], "all sequences of answers, refusals, losses, waiting, calls, disconnecting and connecting within the deviation budget",
     "The tests have no connection that lives for a minute.",
     ["session/2_session_encrypted.ts", "client/0_abortable_loop.ts"],
     [("the ping loop, pings that failed", "session/2_session_encrypted.ts"), ("starting and aborting it", "client/0_abortable_loop.ts")],
     "stateless model checking of the real client and session against a model server that closes connections when asked to, in virtual time", "model_checking", "Exhaustive within the deviation budget; what the server was asked is watched every two seconds.")

prop("T01", "Transport framing and obfuscation lose, add and change no byte",
     "For the abridged and the intermediate transport, plain, padded and obfuscated, with and without a proxy secret: what a peer following the MTProto transport specification decodes from the bytes written is exactly the sequence of packets handed to send (plus less than 16 bytes of padding when padded), and each packet such a peer encodes is received as exactly that packet, for every sequence of packet lengths in both directions, also when sends overlap. The obfuscated start never imitates another protocol and names the protocol and data center. Padding neither spoils encrypted or unencrypted packets nor hides transport error codes from a session.",
     ["inputs", "histories"], "every mode with all sequences of up to four (thorough: five) packets of boundary lengths, all prohibited starts, counter overflows, paddings and fragment sizes",
     "Cipher and framing state depend on everything sent before; no test runs a transport.",
     ["transport/0_obfuscation.ts", "transport/1_transport_abridged.ts", "transport/1_transport_intermediate.ts", "utilities/1_crypto.ts"],
     [("obfuscation parameters", "transport/0_obfuscation.ts"), ("framing", "transport/1_transport_intermediate.ts"), ("cipher stream state", "utilities/1_crypto.ts")],
     "exhaustive enumeration of packet sequences against an independent transport peer", "model_checking", "Complete over the stated lengths and depth; AES and SHA-256 of the runtime are trusted.")

prop("T02", "Connections deliver the byte stream exactly and fail cleanly",
     "For TCP, fake-TLS, SOCKS5 and WebSocket connections (and their Node versions): a read resolves with exactly the next bytes its own connection's peer sent, however these were fragmented; bytes written reach the peer completely, in order and without interleaving, and only on the connection they were written to. When the peer closes, the connection breaks or the user closes it, pending reads and writes fail, the connection counts as closed, its socket is closed, the state handler is told, and it can be opened again, without anything left from the previous connection. Opening succeeds exactly when the peer accepts: a forged fake-TLS answer or a refusing SOCKS5 proxy fails it, and SOCKS5 requests, the client hello and TLS records are well-formed. Bytes read and written are counted exactly.",
     ["schedules", "fault_sequences", "inputs"], "all schedules of reads, writes, partial transfers, ends, resets, refusals, closes, reopens and late notifications within the deviation budget; every altered handshake byte and proxy verdict",
     "The outcome depends on fragmentation and on where a connection ends; no test opens one.",
     ["connection/1_connection_tcp.ts", "connection/1_connection_tls.ts", "connection/1_connection_socks5.ts", "connection/1_connection_web_socket.ts", "connection/0_byte_queue.ts", "connection/1_connection_tcp.node.ts", "connection/1_connection_tls.node.ts", "connection/1_connection_socks5.node.ts"],
     [("reads, writes and state", "connection/1_connection_tcp.ts"), ("handshake and records", "connection/1_connection_tls.ts"), ("buffering", "connection/0_byte_queue.ts")],
     "stateless model checking of the real connections over stand-in sockets", "fault_enumeration", "Exhaustive within the deviation budget; stand-ins for Deno.connect, node:net and WebSocket are trusted.")

UPD_NOTE = "Exhaustive within the deviation budget, on a complete real Client over a fake network and clock; trusts the model server's numbering of updates and its differences."

prop("U01", "Updates of the common box arrive exactly once and in order",
     "While the client is signed in, every update of the account's common box (numbered by pts: new messages, deletions, read marks) that the server announces or includes in a difference reaches the update handlers exactly once and unaltered, and messages among themselves and other updates among themselves arrive in pts order. This holds whatever announcements are lost, duplicated, reordered, delayed or undecipherable, whatever is pushed while a difference is being fetched, in whichever form they come (updates, updatesCombined, short forms), across sliced differences, failed requests, lost connections and updatesTooLong; what was lost arrives at the latest with the next announced update. Only a differenceTooLong may skip updates.",
     ["schedules", "histories", "fault_sequences"], "all histories of up to four announcements and all orders, losses, duplications, slices, errors and disconnections within the deviation budget",
     "No test runs the update manager; its state is shared by queues, recovery and pushes whose interleavings decide the outcome.",
     ["client/2_update_manager.ts", "client/6_client.ts"],
     [("sequence checks, gaps and differences", "client/2_update_manager.ts"), ("recovery triggers", "client/6_client.ts")],
     "stateless model checking of the real client against a model account", "model_checking", UPD_NOTE)

prop("U02", "Updates of channels arrive exactly once and in order",
     "Every update of a channel's own box, once the client has received one from that channel, reaches the update handlers exactly once, unaltered and in order, separately for each channel, whatever announcements are lost, duplicated, reordered or mixed with updates of other boxes, when a channel is announced by updateChannelTooLong or mentioned in the common difference, across sliced differences, failed requests and lost connections. What was lost arrives at the latest with the channel's next announced update. Only a channelDifferenceTooLong may skip or repeat updates.",
     ["schedules", "histories", "fault_sequences"], "all histories of up to four announcements in up to two channels and the common box and all orders, losses, duplications, slices, errors and disconnections within the deviation budget",
     "No test runs the update manager.",
     ["client/2_update_manager.ts"],
     [("channel sequence checks and differences", "client/2_update_manager.ts")],
     "stateless model checking of the real client against a model account", "model_checking", UPD_NOTE)

prop("U03", "Updates of the secondary box and outside the boxes are handled alike",
     "Updates numbered by qts reach the handlers exactly once and in order, independently of losses, duplications and reordering in the common box and vice versa, also when both come in one container. Updates without a number are never delivered twice, when their container is repeated either. updatePtsChanged makes the client continue from the server's present state: nothing that happens after it has been dealt with is lost or repeated, whatever arrives in between.",
     ["schedules", "histories", "fault_sequences"], "all histories of up to four announcements and all orders, losses, duplications, errors, disconnections and resets within the deviation budget",
     "No test runs the update manager.",
     ["client/2_update_manager.ts"],
     [("qts and seq checks, updatePtsChanged", "client/2_update_manager.ts")],
     "stateless model checking of the real client against a model account", "model_checking", UPD_NOTE)

prop("U04", "Guaranteed delivery survives crashes and failing handlers",
     "With guaranteeUpdateDelivery and a persistent storage, every update of the common, secondary and channel boxes is passed at least once to a handler that succeeds, and for the first time in its box's order, even when the process ends at any moment (before any write to the storage) and is started again, handlers fail, storage operations take long, or the clock is set back between runs. Without crashes and failures it is passed exactly once.",
     ["crash_points", "fault_sequences", "schedules"], "every crash point, failing handler, slow storage operation and clock step within the deviation budget",
     "No test restarts a client; the guarantee depends on the order of every single write.",
     ["client/2_update_manager.ts", "client/0_storage_operations.ts"],
     [("storing, handling and removing updates", "client/2_update_manager.ts"), ("keys of stored updates and of channel states", "client/0_storage_operations.ts")],
     "exhaustive fault injection into the real client over a model storage", "fault_enumeration", UPD_NOTE + " Single writes are taken to be atomic.")

prop("U05", "Pending updates are dropped or kept as configured",
     "With dropPendingUpdates (the default for bots) nothing that happened while the client was not running is passed to handlers after it is started, in any box, and everything that happens afterwards is delivered exactly once as usual, also when announcements are lost; in channels, from the first update or updateChannelTooLong on that is received after the start. Without it (the default for users), everything that happened in between is delivered exactly once and in order.",
     ["histories", "schedules", "fault_sequences"], "all histories before, between and after two runs, and all orders, losses and disconnections in the second within the deviation budget",
     "No test restarts a client.",
     ["client/2_update_manager.ts", "client/6_client.ts"],
     [("initial state and channel states", "client/2_update_manager.ts")],
     "stateless model checking of the real client against a model account", "model_checking", UPD_NOTE)

prop("U06", "Open chats are polled as requested, and only while open",
     "While a chat is open its channel difference is requested once per timeout (the one given by the user, otherwise the server's), so that unannounced updates arrive; polling never delivers an update that is also announced twice, and never repeats requests without waiting, also when requests fail or the chat is closed and opened again. After closeChat no further request is made for polling.",
     ["schedules", "histories", "fault_sequences"], "all orders of opening, closing, announcements, answers, errors and time within the deviation budget",
     "No test opens a chat.",
     ["client/2_update_manager.ts"],
     [("polling loop", "client/2_update_manager.ts")],
     "stateless model checking of the real client against a model account", "model_checking", UPD_NOTE)


prop("S01", "Every storage backend is the same ordered map",
     "The memory, localStorage, sessionStorage, IndexedDB, Deno KV and Node localStorage storages, and their branches, behave as one ordered map: get returns what was last set for exactly that key and null if nothing was or it was deleted, getMany lists exactly the entries under a prefix or range, in ascending order of keys or in reverse, up to the limit, and no storage, branch or key ever shows or overwrites the content of another. Keys and values (numbers, bigints, strings, booleans, byte arrays, dates, nested objects) come back as they were stored, also after reopening a persistent storage.",
     ["inputs", "histories"], "all sequences of operations up to the bound over keys chosen to collide (shared prefixes, separators, negative numbers, bigints), on every backend",
     "The tests compare few keys in one storage; encodings of keys collide only for special pairs, in prefixed storages or in branches.",
     ["storage/", "storage/1_utilities.ts", "storage/2_storage_indexed_db.ts", "storage/2_storage_local_storage.ts"],
     [("key and value encoding, ranges", "storage/1_utilities.ts"), ("IndexedDB ranges", "storage/2_storage_indexed_db.ts")],
     "exhaustive enumeration of operation sequences on the real storages against a reference ordered map", "model_checking", "Browser storages run over in-memory stand-ins of the web interfaces; Deno KV is the real one on a scratch file.")

prop("S03", "The cache in front of the storage never disagrees with it",
     "What the client's storage layer reads is what it last wrote, whether the write has been committed, is being committed, or was evicted from the cache, and however long reads and writes of the storage take. After a commit the storage holds exactly what was written, a failed commit loses nothing and is repeated by the next, and a crash at any moment leaves only values that were written. Resetting forgets everything, for reads as well as in the storage.",
     ["schedules", "crash_points", "histories", "fault_sequences"], "all orders of reads, writes, commits, resets, completions, failures and crashes up to the deviation budget, and over 20 000 pending entries",
     "The tests use an in-memory storage whose operations complete at once and never fail.",
     ["client/0_storage_operations.ts"],
     [("cached maps and values, commit and reset", "client/0_storage_operations.ts")],
     "stateless model checking of the real storage layer over a storage with controlled completions", "model_checking", "Exhaustive within the deviation budget; single storage operations are atomic.")

prop("S04", "The network statistics are what went over the network",
     "The network statistics count, separately for messages and for media, every byte that the client's connections have sent and received, once: they are never more than what went over the network, and, when the storage has taken what it was given and something more has gone over the network, exactly that. However long the storage takes, whichever of its writes fail, and whatever is sent and received in the meantime, nothing is counted twice or lost; across restarts they go on from where they were.",
     ["schedules", "fault_sequences", "histories"], "all orders of calls, downloads, completions and failures of single writes, and restarts up to the depth",
     "The tests do not look at the statistics; their writes and what they count overlap only with a slow or a failing storage.",
     ["client/2_network_statistics_manager.ts", "client/6_client.ts"],
     [("what is counted and written", "client/2_network_statistics_manager.ts"), ("which connections are media", "client/6_client.ts")],
     "stateless model checking of the real client against the bytes on the network, over a storage with controlled completions", "model_checking", "Exhaustive within the depth; connections are stand-ins that count what they carry.")


SEC_NOTE = "Two real SecretChatManagers over model storages and a model of the server; every packet is opened and checked by an independent implementation of the envelope. Exhaustive within the deviation budget."

prop("E01", "Secret messages arrive exactly once and in order",
     "Every message sent in an accepted secret chat is received by the other side exactly once and in the order in which it was sent, by whichever side created the chat, however packets are lost, duplicated, reordered or delayed, sends overlap, or sending fails (in which case the caller is told, and the message is received once or not at all); files alike. What is missing after a gap is requested again, at the latest with the next messages.",
     ["schedules", "fault_sequences"], "all orders, losses, duplications, delays and failures up to the deviation budget",
     "The tests do not cover secret chats at all; numbering and gaps depend on every interleaving of both sides.",
     ["client/3_secret_chat_manager.ts"],
     [("sequence numbers, gaps, resending", "client/3_secret_chat_manager.ts")],
     "stateless model checking of two real secret chat managers against each other", "model_checking", SEC_NOTE)

prop("E02", "Keys of secret chats are replaced in time, and forgotten",
     "After 100 messages or a week a secret chat's key is replaced by one both sides agree on, without losing, repeating or reordering messages or ending the chat, even if both sides begin at once and messages of the exchange are lost, delayed or fail; no key is replaced earlier, and once the new key is in use, neither the old keys nor the secret exponents they were made with remain in the storage of either side.",
     ["schedules", "fault_sequences", "histories"], "all orders, losses, delays and failures up to the deviation budget of a key exchange with messages in flight",
     "The tests do not cover secret chats at all; simultaneous exchanges need particular interleavings.",
     ["client/3_secret_chat_manager.ts"],
     [("re-keying", "client/3_secret_chat_manager.ts")],
     "stateless model checking of two real secret chat managers against each other", "model_checking", SEC_NOTE)

prop("E03", "Forged secret messages have no effect",
     "An encrypted message that the other side did not send in this chat with the current key (altered in any byte, truncated, extended, with exchanged blocks, sealed with another or a replaced key, for the other direction, of another chat, with impossible padding or length) is never delivered or answered and does not disturb the chat; an authentic message that breaks the rules of numbering ends the chat rather than being delivered.",
     ["inputs"], "all forgeries of the listed families against both sides of a chat with history",
     "Tests contain no forged secret messages.",
     ["client/3_secret_chat_manager.ts"],
     [("decryption and checks of received messages", "client/3_secret_chat_manager.ts")],
     "exhaustive enumeration of forgeries against the real secret chat manager", "model_checking", SEC_NOTE)

prop("E04", "Secret chats survive crashes",
     "Wherever either side's process ends (before any write to its storage, or while any request is on its way) and is started again, the chat continues: messages whose sending had completed are received, in order, nothing is received that was not sent, messages sent afterwards arrive, and the chat is not ended by reused or skipped numbers, also while the key is being replaced.",
     ["crash_points", "schedules", "fault_sequences"], "every crash before a write or around a request, up to two per execution, with losses and delays within the deviation budget",
     "No test restarts a client in a secret chat.",
     ["client/3_secret_chat_manager.ts"],
     [("stored state of secret chats", "client/3_secret_chat_manager.ts")],
     "exhaustive fault injection into two real secret chat managers over model storages", "fault_enumeration", SEC_NOTE)

prop("E05", "Secret chats begin with a safe shared key, and end for good",
     "Whatever the order of requests, answers and updates, including repeated updates, concurrent acceptances, refusals and endings, a secret chat that was accepted works in both directions, with a key whose fingerprint both sides and the server agree on, and still does after a restart; one that was ended stays ended, nothing can be sent in it, and its keys are not kept. Keys, powers and fingerprints with leading or trailing zero bytes or of either sign work, and unsafe numbers are not sent. If the server gives wrong primes, generators, powers out of range, altered powers or fingerprints, no message is ever sent with the resulting key.",
     ["schedules", "inputs", "fault_sequences"], "all orders of the steps of two parties and the server up to the deviation budget; all listed unusual numbers and deceits",
     "The tests do not cover secret chats; most of these orders need updates that overtake answers.",
     ["client/3_secret_chat_manager.ts"],
     [("requesting, accepting and ending", "client/3_secret_chat_manager.ts")],
     "stateless model checking of two real secret chat managers with a model server", "model_checking", SEC_NOTE)

TL_NOTE = "Exhaustive over the listed shapes; the oracle is an independent codec written from the description of TL, and takes the definitions from the schema tables of /repo, which are trusted."

prop("L01", "TL objects survive serialization, byte for byte as TL defines it",
     "For every constructor and function of the three schemas (the API, MTProto and secret chats), with every kind of value in every field and every combination of optional fields, the bytes written are exactly those TL defines (little-endian numbers, byte strings padded to four bytes, vectors boxed or bare, flags matching the fields that are present), and reading such bytes gives back the same object, as any type it belongs to, consuming exactly its bytes. The same holds for every sequence of primitives, byte strings of all lengths, all characters in strings, results of calls with vectors, and messages and containers.",
     ["inputs"], "every definition of three schemas with every listed value of every field; every short sequence of primitives; all lengths of byte strings to 1200 and around the limits",
     "The tests serialize a handful of objects; the schema has more than two thousand definitions.",
     ["tl/1_tl_reader.ts", "tl/1_tl_writer.ts", "tl/0_api.ts", "tl/2_message.ts"],
     [("reader", "tl/1_tl_reader.ts"), ("writer", "tl/1_tl_writer.ts"), ("messages and containers", "tl/2_message.ts")],
     "exhaustive enumeration of small objects of every type against an independent codec", "model_checking", TL_NOTE)

prop("L02", "Malformed TL data is refused, not misread",
     "Bytes that are no object of the expected type (cut off anywhere, with any bit inverted, words replaced, exchanged or left out, constructors of other types, functions, negative counts or lengths, containers whose counts and lengths do not fit) are refused with an error; whatever is read without one is exactly what TL defines those bytes to mean, no byte beyond the data is used, and reading ends where the object does.",
     ["inputs"], "every truncation and every listed corruption of every byte and word of the smallest and the fullest object of every constructor",
     "The tests deserialize well-formed objects only.",
     ["tl/1_tl_reader.ts", "tl/2_message.ts"],
     [("reader", "tl/1_tl_reader.ts"), ("messages and containers", "tl/2_message.ts")],
     "exhaustive fault injection into serialized objects against an independent strict decoder", "fault_enumeration", TL_NOTE)

FILE_NOTE = "Exhaustive within the stated sizes and the deviation budget, on the real file manager with a model file server that assembles parts as Telegram documents it; real timers are replaced by a virtual clock."

prop("F01", "Uploads are complete and exact, or fail",
     "An upload of any supported source (buffers, views, streams cut anywhere, iterables, data URLs), of any size, chunk size and number of connections, encrypted or not, ends with an input file from which the server reassembles exactly the bytes of the source: all parts numbered from zero without gaps, of equal size but the last, with the right part count and, where there is one, the right checksum or key fingerprint; the source is not changed. Failures that can be retried are, and in any order of answers; an upload fails only if a part is refused for good, the source fails or it is aborted, then with that reason. Progress never goes back and ends at the size.",
     ["inputs", "schedules", "fault_sequences"], "all listed sizes and ways to cut a stream; all orders of answers, failures, pieces of the source and abortion within the deviation budget",
     "The tests upload two small files from sources that do not fail or wait.",
     ["client/2_file_manager.ts"],
     [("uploads", "client/2_file_manager.ts")],
     "stateless model checking of the real file manager against a model file server", "model_checking", FILE_NOTE)

prop("F02", "Downloads give exactly the file, whether or not it is in the storage",
     "A download with any size, chunk size and offset, of a document, photo, thumbnail or secret file, yields exactly the bytes of the file from that offset, in order and once, by asking the right data center for valid parts of the right location, whatever the order of answers, retried failures, and requests for more. It ends at the end of the file, fails only if a part is refused for good or it is aborted, then with that reason, and asks for nothing afterwards. Files kept in the storage are never asked for again and are the same bytes, of the same file, also if downloads were stopped, failed or interrupted by a crash before, two ran at once, or the application changed the chunks it was given.",
     ["inputs", "schedules", "crash_points", "fault_sequences"], "all listed sizes, offsets and chunk sizes; all pairs of related files; all orders of answers, failures, abortions, crashes and two downloads within the deviation budget",
     "The tests download one file from one pool of prepared answers.",
     ["client/2_file_manager.ts", "client/0_storage_operations.ts"],
     [("downloads and their cache", "client/2_file_manager.ts"), ("stored parts", "client/0_storage_operations.ts")],
     "stateless model checking of the real file manager against a model file server", "model_checking", FILE_NOTE)

CLIENT_NOTE = "Exhaustive within the stated scripts and the deviation budget, on the complete real client (sessions, key exchange, storage) with model data centers that check every packet; clock and randomness are the harness's."

prop("N01", "Requests reach the right data center, signed in",
     "A request is served by the data center it is meant for, on the right kind of connection (the given one, or that of the account; media connections for uploads and downloads), with a key of that data center that the account has been authorized with, after the client's parameters and layer were stated, and without asking for updates on other connections than the main one; the caller gets that data center's answer. Other data centers are set up as needed, once, also by concurrent requests, and again when they forget the authorization or the parameters; a request fails only if a connection was lost or refused while it was pending, or the client disconnected, and never hangs. Connections to other data centers are closed when idle and opened again, none is left after disconnecting, and a restart uses the stored keys.",
     ["schedules", "fault_sequences", "histories"], "all orders of packets of different connections, losses, refusals, disconnections and further calls within the deviation budget, for the listed scripts",
     "The tests never connect to a server.",
     ["client/6_client.ts", "client/2_client_encrypted.ts", "client/3_client_encrypted_pool.ts", "session/1_session.ts"],
     [("choosing and setting up clients", "client/6_client.ts"), ("pools", "client/3_client_encrypted_pool.ts"), ("initialization of connections", "client/2_client_encrypted.ts")],
     "stateless model checking of the real client against several model data centers", "model_checking", CLIENT_NOTE)

prop("N02", "Signing in and out",
     "Signing in with a phone number and code, with a password, by signing up, or with a bot token ends signed in to the given account in its data center, also when the account lives in another data center or some answers were wrong at first; the user is asked for each answer exactly as often as needed. A lost connection, a short flood wait, or a crash at any point at most makes the application start again. Afterwards the client knows its own account and names it in updates; a restart (orderly or not) asks nothing and makes no new key, the exported authorization string authorizes a client elsewhere, and the application has been told each change of the authorization state once. Signing out leaves no key and nothing of the account in the storage, and one can sign in as someone else, with new keys.",
     ["fault_sequences", "crash_points", "histories"], "all packets at which a connection is lost or a flood wait is answered and all storage writes before which the client is killed, within the deviation budget, for the listed accounts",
     "The tests never sign in.",
     ["client/6_client.ts", "client/2_sign_in.ts", "client/3_account_manager.ts", "client/0_password.ts", "client/0_storage_operations.ts", "client/2_client_encrypted.ts"],
     [("signing in and out", "client/6_client.ts"), ("storage of the authorization", "client/0_storage_operations.ts"), ("password proof", "client/0_password.ts")],
     "stateless model checking of the real client against model data centers with accounts, including an SRP server", "fault_enumeration", CLIENT_NOTE)

prop("N03", "Failed requests go to error handlers; the last connection state told is true",
     "When a request made with client.invoke fails, the error handlers are asked in the order they were added, each with the client, the function, the error and the number of the attempt; a handler's call of next asks the following one, once, and gives its result. If they decide to repeat the request it is sent again, once; otherwise the caller gets the error, or whatever a handler threw. By default a request refused with FLOOD_WAIT of at most 10 seconds is repeated after exactly that wait and no error reaches the caller; longer waits and other errors do reach the handlers and the caller. The caller gets the answer to its own request. The application is told the state of the connection so that, once things are quiet, the last state it was told is the actual one.",
     ["schedules", "fault_sequences", "histories"], "all decisions of handlers, orders of answers and errors, losses, gaps, disconnections and slow handlers within the deviation budget",
     "The tests never invoke a request.",
     ["client/6_client.ts", "client/1_invoke_middleware.ts", "client/2_update_manager.ts"],
     [("error handlers", "client/6_client.ts"), ("connection state", "client/6_client.ts")],
     "stateless model checking of the real client against a model server", "model_checking", CLIENT_NOTE)

prop("N04", "A disconnected client leaves nothing going on, and can be connected again",
     "At whatever moment the client is disconnected, while it calls (this or another data center), sends messages, downloads, uploads, polls an open chat, looks for missed updates, waits because it was told to or connects again after a loss, all its connections are closed and none is opened and nothing is sent afterwards, everything that was under way ends (transfers after trying for some minutes, everything else within seconds), disconnecting itself ends, and then nothing is left that waits, so that the process can end. When it is asked to connect again, it does, and everything works as before.",
     ["schedules", "fault_sequences", "histories"], "all moments of disconnecting, within the deviation budget of orders of answers, refusals, flood waits, losses, refused connections and timers, for each activity and each pair of them",
     "The tests never disconnect a client that has something to do.",
     ["client/6_client.ts", "client/2_client_encrypted.ts", "client/2_update_manager.ts", "client/2_file_manager.ts"],
     [("disconnecting all clients and pools, loops of the client", "client/6_client.ts"), ("polling of open chats", "client/2_update_manager.ts"), ("retrying transfers", "client/2_file_manager.ts")],
     "stateless model checking of the complete real client against the model server in virtual time", "model_checking", "Exhaustive within the deviation budget.")

prop("P01", "Locks, queues and loops",
     "A Mutex is held by one task at a time, is given in the order it was asked for, and giving it back twice has no effect. A Queue runs its functions one at a time, each once, in the order they were added, whoever adds them and whenever, and also after one fails. An AbortableLoop never runs its function twice at once, runs it again and again while started and not aborted, tells it of an abortion, does not run it after an abortion unless started again, and reports each error unless aborted.",
     ["schedules", "histories"], "all sequences of operations up to the stated lengths",
     "Mutex and Queue have no tests; the loop's tests sample a few orders.",
     ["utilities/0_mutex.ts", "utilities/2_queue.ts", "client/0_abortable_loop.ts"],
     [("mutex", "utilities/0_mutex.ts"), ("queue", "utilities/2_queue.ts"), ("loop", "client/0_abortable_loop.ts")],
     "exhaustive exploration of the real classes", "model_checking", "The real classes run; the harness decides when tasks and functions end.")

prop("W01", "A client in a worker behaves as one in the same thread",
     "Calling a method of a client created with ClientWorker calls that method of its own client in the worker once, with the same arguments (streams are moved), and the promise ends with the same value or, for MTKruto's and Telegram's errors, with an error of the same class, message and fields, whatever the order of calls and answers, with several clients and with shared workers. Updates of a client reach the handlers of that client only, unchanged, each once and in order, also while it is not known yet who the user is and if handlers are slow or fail. A failing client.invoke goes through the application's error handlers exactly as in the same thread. If the worker fails, all pending calls end with an error; calls to a client that is not initialized, creating a client twice and arguments that cannot be sent are errors; after disconnecting, or failing to be, a client can be initialized again. Signing in takes the same steps as in the same thread, and handlers are told who the account is, also when it has changed. download and downloadChunk give exactly the bytes of the file, as the client in the same thread does.",
     ["schedules", "fault_sequences", "inputs"], "every method and error class; all orders of calls, answers, messages, updates, handlers and failures of the worker within the deviation budget; all combinations of answers and decisions of up to two error handlers",
     "There are no tests of workers.",
     ["client/6_client_dispatcher.ts", "client/7_client_receiver.ts", "client/7_client_worker.ts", "client/0_worker_error.ts", "worker.ts"],
     [("the application's side", "client/6_client_dispatcher.ts"), ("the worker's side", "worker.ts"), ("errors", "client/0_worker_error.ts")],
     "stateless model checking of the real two sides of a worker joined by model channels", "model_checking", "Both real sides run in one thread; messages are cloned as the platform does and delivered in order when the explorer says so.")

prop("A01", "Password proofs convince the server exactly if the password is right",
     "For every password, generator (3, 4, 5 or 7), salts, server value and random draw, the proof made for account.getPassword's parameters is accepted by a server following Telegram's SRP protocol if the password is that of the account, and refused otherwise; A is 256 bytes, in the safe range, and made of 2048 random bits drawn anew when unusable; numbers with leading zeros are no exception. No proof is made for another prime, another generator, another algorithm, a missing server value or identifier, or a server value that is not between 0 and the prime.",
     ["inputs"], "all listed passwords, salts, generators, values with leading zeros, unusable draws and wrong parameters",
     "The tests check the hash functions against single vectors and never compute a proof.",
     ["client/0_password.ts", "utilities/0_int.ts"],
     [("the proof", "client/0_password.ts"), ("big integers", "utilities/0_int.ts")],
     "exhaustive enumeration of the real computation against a model server", "model_checking", "Random bytes are the harness's; the server's side is an independent implementation.")

prop("C01", "Updates reach the middleware they should, in order",
     "Middleware runs in the order in which it was added, each function at most once per update and only when the one before calls next; calling next again does nothing; next ends when the rest has ended, and errors go back through the callers of next to whoever handled the update. This holds however composers are nested, filtered and branched and also for middleware added later to a composer that use, filter, branch or another method returned, and updates handled at the same time do not affect each other. A filter given to on matches exactly the updates of that type, raw update name, or message type; command, callbackQuery, inlineQuery, chosenInlineResult and chatType match exactly what their documentation says (prefixes, user names after @, case, expressions), and hasX agree with them. The shortcuts of a context (msg, chat, chatId, from, ...) are those of its update.",
     ["inputs", "histories"], "all ways to build a tree of middleware in up to four operations, with the listed behaviours; all filters with all kinds of updates and messages; all command texts from the listed pieces",
     "The tests build a few composers and match a few filters.",
     ["client/5_composer.ts", "client/3_filters.ts", "client/4_context.ts"],
     [("middleware", "client/5_composer.ts"), ("filters", "client/3_filters.ts"), ("commands and shortcuts", "client/4_context.ts")],
     "exhaustive enumeration of programs on the real composer against an interpreter", "model_checking", "The real classes run with a stand-in for the client; the interpreter and the tables of updates are written independently.")

prop("C02", "Context methods act on what their update is about",
     "Every method of a context calls the method of the client it stands for exactly once, with the identifiers of the update's chat, message, sender, user, secret chat, story, query or inline message, then its own arguments unchanged, and ends as that call ends. Replies go to the update's chat, thread and business connection, quote the message if asked or, if not said, outside of private chats, and to ephemeral messages as such; edits keep the business connection. A method whose update does not tell what to act on fails and calls nothing. Arguments are never changed.",
     ["inputs"], "all methods with all listed kinds of updates, with and without parameters, with all ways to ask for quoting, the client succeeding and failing",
     "There are no tests of context methods.",
     ["client/4_context.ts"],
     [("the methods", "client/4_context.ts")],
     "exhaustive enumeration of the real methods against a table", "model_checking", "The real class runs with a stand-in for the client that records calls.")

prop("M01", "HTML and Markdown give the text and entities they describe",
     "For every formatted text, parsing it as written in Telegram's HTML or MarkdownV2 style gives exactly its text and exactly its entities (types, UTF-16 offsets and lengths, languages, URLs, users, emoji, dates), sorted by offset and then length, whatever the characters (escaped, outside of the basic plane, numeric entities), nesting, adjacency and equivalent ways to write it, and also in secret chats; the message made of it is the same without space at its end. Any other text is either refused with an InputError or gives entities that lie within the text.",
     ["inputs"], "all formatted texts of the listed pieces and formats up to the stated size; all texts of the listed symbols up to the stated length",
     "The tests compare a few dozen fixed texts.",
     ["client/0_html.ts", "client/0_markdown.ts", "client/3_message_manager.ts"],
     [("HTML", "client/0_html.ts"), ("Markdown", "client/0_markdown.ts"), ("messages", "client/3_message_manager.ts")],
     "exhaustive enumeration of formatted texts, written out and parsed again by the real parsers", "model_checking", "The texts are written by an independent writer.")

prop("D01", "Chats are addressed with what was told of them last",
     "After any sequence of updates and answers that mention chats in full or minimally, changes of usernames, restarts (with a persistent cache) and time, a chat asked for by identifier is addressed with its identifier and the access hash told last, or, if it was told of only minimally, through a message it was seen in (in a chat that can itself be addressed), and otherwise not at all; and is known by the name and usernames told last. A username in any spelling (with @, as a link, in other case), or a phone number, gives the chat that was last told to have it; one nothing was told of is looked up once, and nobody else's chat is ever given instead.",
     ["histories", "inputs"], "all sequences of the listed events up to the stated length, then every chat by identifier, name and usernames in all listed spellings",
     "No test resolves a chat.",
     ["client/6_client.ts", "client/2_update_manager.ts", "client/0_storage_operations.ts"],
     [("input peers", "client/6_client.ts"), ("users and chats of updates and answers", "client/2_update_manager.ts"), ("stored chats", "client/0_storage_operations.ts")],
     "stateful enumeration of histories of the real client against a reference table", "model_checking", "The whole client runs on a fake network and a disk that outlives it; how long usernames are remembered between a minute and a day is left open.")

prop("L03", "Identifiers given as text stand for what they were given for",
     "A file identifier read back gives exactly the file it was written for (type, data center, reference, location and source) in Telegram's format, and two files have the same unique identifier exactly if they are the same file, whatever their access hashes, references and data centers. Downloading by the identifier of a file, photo, thumbnail or profile photo of a received message or chat asks its data center for that very file and size; sending by it sends that very file, and refuses it as another kind. Identifiers of inline messages, and authorization strings, are read back exactly, and edits go to that inline message at its data center. Chat identifiers and peers correspond one to one. Texts of other formats, and cut ones, are refused.",
     ["inputs"], "all listed types, data centers, references, locations, sources and edge values; alterations at every position; all kinds of files in messages",
     "The tests compare no identifier.",
     ["types/_file_id.ts", "types/A_callback_query.ts", "client/0_storage_operations.ts", "client/2_file_manager.ts", "tl/2_telegram.ts"],
     [("file identifiers", "types/_file_id.ts"), ("inline message identifiers", "types/A_callback_query.ts"), ("authorization strings", "client/0_storage_operations.ts"), ("downloads", "client/2_file_manager.ts"), ("chat identifiers", "tl/2_telegram.ts")],
     "exhaustive enumeration of identifiers against an independent codec, and of files through the real client", "model_checking", "The codec of the harness is independent; the whole client runs on model data centers for sending and downloading.")

prop("Y01", "Updates reach the application as what they are",
     "Every update of the kinds the client tells of (messages of every kind of content, in full or in the short forms the server has for them and for messages just sent, service messages, edits, deletions, scheduled, ephemeral and business messages, typing, callback queries, inline queries, reactions, chat members, join requests, polls and their votes, stories, video chats, bot commands, business connections, payments, emoji statuses, transcriptions, link previews), with any of its fields present or missing, any constructor the server sends in them and lists of none, one or more elements, is told to the application exactly once, as the type of update and of message it is, and with the values the server sent (texts and their entities, senders, chats, replies, forwards, keyboards, reactions, files and their properties); what a part of it the client has no type for is told as unsupported, and nothing else is lost because of it.",
     ["inputs"], "all values of each update that differ from an ordinary one along one path of the schema, up to the stated depth",
     "Tests construct a handful of messages; the schema has thousands of forms, and one that cannot be constructed is lost.",
     ["types/9_message.ts", "types/A_callback_query.ts", "types/1_keyboard_button.ts", "types/1_inline_keyboard_button.ts", "types/8_poll.ts", "client/3_message_manager.ts", "client/6_client.ts"],
     [("messages", "types/9_message.ts"), ("updates", "client/6_client.ts"), ("keyboards", "types/2_reply_markup.ts"), ("polls", "types/8_poll.ts"), ("callback queries", "types/A_callback_query.ts")],
     "exhaustive enumeration of the forms of every update up to a depth of the schema, through the real client, against a reference table", "model_checking", "The forms are enumerated from the schema the code is built with.")
prop("K02", "Remembered answers are what the server says",
     "Whatever the client remembers so as not to ask again (strings of language packs, descriptions, photos, members and administrators of chats, video chats, polls and what was chosen in them, answers to callback and inline queries, custom emoji and the names of sticker sets, business connections, transcriptions of voice messages) is given back as the server last told it, by an answer or by an update, whatever happened in between: updates that tell of the change wholly, partly or only that there is one, versions that were missed, time passing beyond the validity the server stated, restarts with a persistent cache, a change told right after the answer. Each such update reaches the application once with what holds then. An answer is only given to the question it was the answer to, lists given earlier do not change, and a password that confirms a callback query is never stored.",
     ["histories"], "all sequences of the listed events up to the stated length per kind, then everything asked again",
     "No test asks the same question twice with the server changing in between.",
     ["client/2_translations_manager.ts", "client/4_chat_list_manager.ts", "client/3_video_chat_manager.ts", "client/4_poll_manager.ts", "client/4_callback_query_manager.ts", "client/4_inline_query_manager.ts", "client/2_file_manager.ts", "client/2_business_connection_manager.ts", "client/3_message_manager.ts", "client/0_storage_operations.ts"],
     [("translations", "client/2_translations_manager.ts"), ("chats and members", "client/4_chat_list_manager.ts"), ("video chats", "client/3_video_chat_manager.ts"), ("polls", "client/4_poll_manager.ts"), ("answers with a validity", "client/4_callback_query_manager.ts"), ("stickers", "client/2_file_manager.ts")],
     "stateful enumeration of histories of questions, changes and restarts of the real client against a reference server", "model_checking", "The whole client runs on a fake network and a disk that outlives it; answers and updates arrive in the order in which the server says them.")
prop("K01", "Messages told of are never taken for other ones",
     "After any sequence of updates and answers about messages in private chats, groups, supergroups and channels (new, edited, deleted, reacted to, viewed, forwarded, replied to, sent by people the client knows too little of; scheduled ones and those of business connections, which are numbered separately; news that are too much to tell), requests, and restarts with a persistent cache: each update about a message reaches the application once, with the content told last and with the right replied message (or none, if it cannot be had), and messages asked for are the ones that exist, in the state told last, never ones that were deleted, of another chat, or changed while too much happened.",
     ["histories", "faults"], "all sequences of the listed events up to the stated length, then getMessages in all chats",
     "No test stores and reads a message through the client.",
     ["client/3_message_manager.ts", "client/6_client.ts", "client/2_update_manager.ts", "client/2_reaction_manager.ts", "client/0_storage_operations.ts", "types/9_message.ts"],
     [("messages", "client/3_message_manager.ts"), ("storing messages", "client/6_client.ts"), ("views, forwards, reactions", "client/2_reaction_manager.ts"), ("gaps and messages in answers", "client/2_update_manager.ts"), ("replies", "types/9_message.ts")],
     "stateful enumeration of histories of the real client against a reference table of messages", "model_checking", "The whole client runs on a fake network and a disk that outlives it; deletions in private chats and groups are told only for messages the client was told of.")
prop("X01", "What is sent is what was asked for",
     "Each method for sending or editing a message (text, photos, videos, animations, audio, voice messages, documents, stickers, live photos, albums, polls, checklists, locations, venues, contacts, dice, games, invoices, forwards, and their inline, scheduled and business forms), called with any combination of its parameters by a user or a bot in any kind of chat, makes the server do exactly that: the request names the chat, carries the text with its entities, the media with every stated attribute, the keyboard, the reply with its quote, the sender, the time, the effect and the flags asked for and no other ones, files uploaded or referred to as given; the message the server makes of it is given back. What is only for users or only for bots, and what contradicts itself, is refused and the server is asked nothing.",
     ["inputs"], "every method with every combination of at most two (three in thorough) of the listed values of its parameters, for users and bots, in private chats, groups and channels",
     "Tests call no method of the client; parameters that are lost or mixed up look like success.",
     ["client/3_message_manager.ts", "client/2_file_manager.ts", "types/2_reply_markup.ts", "types/1_inline_keyboard_button.ts", "types/4_reply_to.ts", "client/6_client.ts"],
     [("messages", "client/3_message_manager.ts"), ("keyboards", "types/1_inline_keyboard_button.ts"), ("methods", "client/6_client.ts")],
     "exhaustive enumeration of combinations of parameters of every method through the real client, against a reference table of requests", "model_checking", "The requests are read by the model server after encryption, as bytes on the wire; whole client, fake network, virtual clock.")
prop("X02", "Managing chats, messages, topics and the account",
     "Each method for managing messages (deleting, pinning, reacting, reading, searching, scheduled ones, chat actions), chats (creating, joining, leaving, members, rights, bans, titles, photos, links, join requests, permissions, slow mode, moderation), topics, saved and direct messages chats, folders, blocked users, privacy, profile, sessions, usernames, emoji statuses, commands and the bot's own descriptions asks the server, with any combination of its parameters, for exactly what was asked for, in the way the kind of chat requires, as often and in the order needed, and gives back what the server says of it. What is not available to the account or in the kind of chat, and what is not valid, is refused, and the server is asked nothing.",
     ["inputs"], "every method with every combination of at most two (three in thorough) of the listed values of its parameters, for users and bots, in private chats, groups and channels",
     "Tests call no method of the client; a right that is granted instead of withheld looks like success.",
     ["client/3_message_manager.ts", "client/4_chat_manager.ts", "client/3_account_manager.ts", "client/4_forum_manager.ts", "client/2_reaction_manager.ts", "client/6_client.ts"],
     [("messages", "client/3_message_manager.ts"), ("methods", "client/6_client.ts"), ("reactions", "client/2_reaction_manager.ts")],
     "exhaustive enumeration of combinations of parameters of every method through the real client, against a reference table of requests", "model_checking", "The requests are read by the model server after encryption, as bytes on the wire; whole client, fake network, virtual clock.")
prop("X03", "Contacts, bots, payments, gifts, stories and sticker sets",
     "Each method for contacts, votes and polls, checklists, answering and sending queries (callback, inline, pre-checkout, shipping), bots and managed bots, payments, stars, gifts and their collections, stories and their albums, sticker sets, profile music and notification sounds, lists of chats, history and saved messages, takeouts, communities and creating chats asks the server, with any combination of its parameters, for exactly what was asked for, with the things referred to (files, gifts, slugs, polls' options, tasks, peers) as the server named them, in the account's or the business's name, as often and in the order needed, and gives back what the server says of it. What is not available to the account and what is not valid is refused, and the server is asked nothing.",
     ["inputs"], "every method with every combination of at most two (three in thorough) of the listed values of its parameters, for users and bots",
     "Tests call no method of the client; a vote for another option than the chosen one looks like success.",
     ["client/4_poll_manager.ts", "client/4_gift_manager.ts", "client/2_gift_collection_manager.ts", "client/4_story_manager.ts", "client/2_story_album_manager.ts", "client/3_sticker_set_manager.ts", "client/2_payment_manager.ts", "client/4_contact_manager.ts", "client/4_checklist_manager.ts", "client/2_managed_bot_manager.ts", "client/2_takeout_manager.ts", "client/2_community_manager.ts", "client/6_client.ts"],
     [("polls", "client/4_poll_manager.ts"), ("gifts", "client/4_gift_manager.ts"), ("stories", "client/4_story_manager.ts"), ("sticker sets", "client/3_sticker_set_manager.ts"), ("methods", "client/6_client.ts")],
     "exhaustive enumeration of combinations of parameters of every method through the real client, against a reference table of requests", "model_checking", "The requests are read by the model server after encryption, as bytes on the wire; whole client, fake network, virtual clock.")
prop("X04", "Rich texts reach the server, and the application, as they are",
     "A rich text (paragraphs, headings, lists, tables, details, quotes, code, math, maps, embeds, collages, slideshows, media, captions and texts of every style, nested in one another) sent, edited, edited inline, sent or saved as a draft, by a user or a bot, reaches the server as the same tree of blocks and texts with every attribute given and no other one, its files uploaded or referred to once each and named by the blocks that show them; one that the server answers with is given to the application as the same tree.",
     ["inputs"], "every kind of text and block, in every place that can hold one, with each of its attributes (three levels of nesting; pairs of parameters of the methods)",
     "Tests call no method of the client; a block lost within another, or a caption given to another picture, looks like success.",
     ["client/3_message_manager.ts", "types/3_rich_text_component.ts", "types/4_input_page_block.ts", "types/4_page_block.ts", "types/5_input_rich_text.ts", "types/5_rich_text.ts"],
     [("rich text methods", "client/3_message_manager.ts"), ("blocks sent", "types/4_input_page_block.ts"), ("blocks received", "types/4_page_block.ts")],
     "exhaustive enumeration of bounded rich texts through the real client, against a reference translation", "model_checking", "The requests are read by the model server after encryption, as bytes on the wire; whole client, fake network, virtual clock.")
prop("X05", "What the server answers is what the call gives",
     "Each method that finds something out (sessions and connected websites, blocked users, countries, support, the application's configuration, privacy rules, settings of chats, link previews, favorite and recent stickers, saved animations and sounds, emoji statuses, suggested, inactive, administered and recommended chats, owned bots, communities, sticker sets, messages by links, summaries, reports, members, recent actions, reactions, votes, topics, invite links, saved chats, transactions, gifts, inline results) asks exactly what was asked for, and gives what the server answered: every element, in order, every value in its place, what is missing missing. Video chats and live streams can be started, scheduled, joined, left and watched as soon as they are known in any way, and until they end; what belongs to a live stream is asked for in its data center.",
     ["inputs"], "every method, every form of the answer three to five levels deep, and pairs of its parameters (triples in thorough)",
     "Tests call no method of the client; values in the wrong place look like success.",
     ["client/3_account_manager.ts", "client/4_chat_list_manager.ts", "client/3_message_manager.ts", "client/3_video_chat_manager.ts", "client/2_community_manager.ts", "client/3_sticker_set_manager.ts", "types/3_chat_settings.ts", "types/5_link_preview.ts", "types/3_privacy_rule.ts", "types/B_recent_action.ts", "types/2_chat_member.ts"],
     [("account", "client/3_account_manager.ts"), ("video chats", "client/3_video_chat_manager.ts"), ("link previews", "types/5_link_preview.ts"), ("privacy", "types/3_privacy_rule.ts")],
     "exhaustive enumeration of forms of answers and combinations of parameters through the real client, against a reference table", "model_checking", "The requests are read by the model server after encryption, as bytes on the wire; whole client, fake network, virtual clock.")
