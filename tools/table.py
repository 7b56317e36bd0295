WALK = "path-sensitive dataflow over type-checked, inlined SSA: "
SOUND = "All abstract paths of every entry point are covered (loops by an inductive state, joins over-approximated); residual assumptions are listed in the evidence. "

prop("C01", "Storage state is only touched under its locks",
 "Whatever calls run concurrently, every access to a torrent's or piece's progress state (completion flags, counters, buffered blocks, the set of complete pieces, the pending waiters) is made while holding that object's lock, exclusively when it writes. Callers never receive a reference to state that can change afterwards.",
 ["schedules"], "all interleavings of reads, writes, resets and waits on one storage",
 "The tests are single-threaded and a race needs a particular interleaving to show.",
 ["storage/storage.go", "storage/torrent.go"],
 [("Torrent.mu", "storage/torrent.go"), ("Piece.mu", "storage/torrent.go")],
 WALK + "lockset analysis (guarded-by)", SOUND + "Guards are inferred from the struct that owns the field and its mutex.")

prop("C02", "Server and peer state is only touched under its locks",
 "Whatever connections, dials, announces and disconnects run concurrently, every access to the server's tables (known, blocked, active, queued peers, the piece index, pieces in flight) and to a peer's table of outstanding requests is made while holding the lock of the object that owns it.",
 ["schedules"], "all interleavings of connection handling, dialling, announcing, requesting, stopping",
 "There are no tests of the p2p package; a race needs several connections at a particular moment.",
 ["p2p/server.go", "p2p/peer.go"],
 [("Server.mu", "p2p/server.go"), ("Peer.mu", "p2p/peer.go")],
 WALK + "lockset analysis (guarded-by)", SOUND + "A peer's ID and cancel function are written before the peer is shared (listed exception).")

prop("C03", "Announce tables and codec caches are only touched under their locks",
 "Whatever requests and encodings run concurrently, the tracker endpoint's table of peers, the client's ordered list of trackers and the codec's cached per-type field tables are only read or changed while holding the lock that guards them.",
 ["schedules"], "all interleavings of announces, expiry, tracker failover and encoding or decoding",
 "Tests use the codec from one goroutine and do not cover the endpoint or the failover at all.",
 ["pex/http.go", "p2p/multitracker.go", "bencode/encode.go"],
 [("Torrent.mu", "pex/http.go"), ("Multitracker.mu", "p2p/multitracker.go"), ("fieldCacheMu", "bencode/encode.go")],
 WALK + "lockset analysis (guarded-by)", SOUND)

prop("C04", "Locks are always released, never taken twice, and taken in one order",
 "Every operation and goroutine releases the locks it takes on every path, including early returns and panics; none locks a mutex it already holds or unlocks one it does not hold. The order in which locks are taken while others are held has no cycle, so operations cannot deadlock on locks.",
 ["schedules", "inputs"], "all paths of all operations in all interleavings",
 "A leaked lock sits on an error path and a lock-order inversion needs two operations at the same moment; tests take neither.",
 ["p2p/server.go", "p2p/peer.go", "p2p/multitracker.go", "storage/storage.go", "storage/torrent.go", "pex/http.go", "bencode/encode.go"],
 [("sync.Mutex and sync.RWMutex use", "all packages")],
 WALK + "lock typestate and lock-order graph", SOUND + "Lock order is per mutex field, not per object.")

prop("C05", "Nothing waits for another party while holding a shared lock",
 "No operation waits for the network, another goroutine, a channel or an HTTP exchange while it holds the lock of the server, of the tracker list, of a torrent or piece, or of an announce table. While a peer's own lock is held, only sending to that peer (under a deadline) and storing a block are allowed.",
 ["schedules", "fault_sequences"], "all interleavings, with peers, trackers and clients that stall at any point",
 "Only a stalled peer or tracker makes it visible; the tests have no network.",
 ["p2p/server.go", "p2p/peer.go", "p2p/multitracker.go", "storage/storage.go", "pex/http.go"],
 [("critical sections", "p2p/server.go"), ("tier snapshot", "p2p/multitracker.go")],
 WALK + "effect analysis of critical sections with call summaries", SOUND + "Blocking effects are recognised by callee (net, net/http, sync, errgroup, os) and by channel operations.")

B = ["bencode/decode.go"]
prop("B01", "Decoding any bytes terminates without a panic, at bounded depth",
 "For every input, decoding through any entry point (bencode, metainfo files, tracker responses) ends with a value or an error: no index, slice, allocation, conversion or reflect call can panic, and nesting deeper than a constant limit is refused, so hostile input cannot overflow the stack. The nesting counter is restored after every value, so a wide document is not refused.",
 ["inputs"], "every byte string and every supported target type",
 "The space of inputs is unbounded; tests decode a few hand-written documents.",
 ["bencode/decode.go", "bencode/raw_message.go", "api/metainfo/metainfo.go", "api/tracker/tracker.go"],
 [("Decoder.decode and its helpers", "bencode/decode.go"), ("depth limit", "bencode/decode.go")],
 WALK + "index/nil/panic obligations by linear inequalities, recursion-counter typestate", SOUND + "reflect and the standard library are modelled by their documentation.")
prop("B02", "Announced lengths never size an allocation",
 "A length that the input merely announces (a string prefix) does not decide how much memory is allocated before that many bytes were actually received; memory grows with the data read. A negative or malformed length is an error.",
 ["inputs"], "every byte string, including ones that announce huge lengths",
 "A test cannot send all prefixes, and over-allocation is invisible until memory is exhausted.",
 B, [("string reading", "bencode/decode.go")],
 WALK + "taint of announced lengths into allocation sizes", SOUND)
prop("B03", "Raw values keep exactly the bytes that were consumed",
 "Capturing an undecoded value (raw messages and types that decode themselves) yields exactly the bytes of that value as they stood in the input, nothing added, dropped or reformatted; encoding a raw message writes those bytes unchanged; a torrent's info-hash is the SHA-1 of exactly those bytes of its info dictionary.",
 ["inputs"], "every encoded value",
 "Tests compare a few documents; any value kind or nesting could be captured differently.",
 ["bencode/decode.go", "bencode/raw_message.go", "api/metainfo/metainfo.go"],
 [("consume", "bencode/decode.go"), ("RawMessage", "bencode/raw_message.go"), ("Info.UnmarshalBencoding / SHA1", "api/metainfo/metainfo.go")],
 WALK + "token correspondence between bytes consumed and bytes captured", SOUND)
prop("B04", "Malformed or ambiguous bencode is refused",
 "The decoder accepts an integer only if its text is canonical decimal (no leading zero, no '-0', no plus sign, no empty text), a string only if its length is made of decimal digits alone and exactly that many bytes follow, and a dictionary only if its keys are strings in strictly ascending order; everything else is an error. Decoding a captured value and decoding directly accept the same text.",
 ["inputs"], "every byte string",
 "The set of malformed inputs is unbounded; tests sample a few.",
 B, [("integer and length parsing", "bencode/decode.go"), ("dictionary key order", "bencode/decode.go")],
 WALK + "guard analysis: which tested predicates dominate acceptance", SOUND + "A predicate is matched by its meaning on the text (conditions on length and bytes), not its spelling.")
prop("B05", "Encoder output is one complete canonical value",
 "For every value, a successful encoding writes exactly one complete bencode value: lists and dictionaries are closed, every string is prefixed by the decimal length of what follows, every key has exactly one non-empty value, dictionary keys are in ascending byte order (map keys and struct tags alike), and the encoder's writer is the caller's again afterwards, also on errors.",
 ["inputs"], "every encodable value",
 "Round-trip tests use fixed values; order and completeness must hold for all shapes.",
 ["bencode/encode.go"], [("Encoder.encode and its helpers", "bencode/encode.go"), ("field table order", "bencode/encode.go")],
 WALK + "grammar automaton over the writes, comparator summaries of sorts", SOUND)
prop("B06", "Values are read and set only with the accessor of their kind",
 "Encoding and decoding use for each kind of Go value the accessor of that kind (signed for signed, unsigned for unsigned, and so on), on every path, and unsupported kinds end in an error that names the type; the kinds the encoder accepts the decoder accepts too, except those that are encode-only by nature.",
 ["inputs"], "every Go type",
 "reflect accessors panic or truncate for wrong kinds; tests sample few types.",
 ["bencode/decode.go", "bencode/encode.go"], [("kind dispatch", "bencode/decode.go"), ("kind dispatch", "bencode/encode.go")],
 WALK + "kind-set typestate of reflect values", SOUND)
prop("B07", "Integers that do not fit their target are refused",
 "Decoding an integer into a target too narrow for it, or a negative one into an unsigned target, is an error; a value is stored only after it was checked to be representable in the target, so no integer is silently truncated or wrapped.",
 ["inputs"], "every integer text and every integer target type",
 "Each width and boundary would need a test.",
 B, [("integer decoding", "bencode/decode.go")],
 WALK + "guard analysis of SetInt/SetUint by overflow tests of the same value", SOUND)
prop("B08", "No read, write or decode error is lost",
 "Every error met while encoding or decoding (from the reader, the writer, a nested value or a custom marshaler) makes the whole operation fail; a truncated document is never a success.",
 ["inputs", "fault_sequences"], "every document and every failing read or write",
 "A failing writer or reader has to fail at one particular call.",
 ["bencode/decode.go", "bencode/encode.go", "bencode/raw_message.go", "api/metainfo/metainfo.go"],
 [("error returns", "bencode/decode.go"), ("error returns", "bencode/encode.go")],
 WALK + "error-value typestate: every error result is tested or returned", SOUND)
prop("B09", "Encoding any value ends without a panic, at bounded depth",
 "Encoding any value (also one that refers to itself) ends with output or an error: no index, nil dereference or reflect call can panic, and nesting beyond a constant limit is refused. The nesting counter is restored after each value.",
 ["inputs"], "every Go value, cyclic ones included",
 "Values can be nested or cyclic in unboundedly many ways.",
 ["bencode/encode.go"], [("depth limit", "bencode/encode.go")],
 WALK + "index/nil/panic obligations, recursion-counter typestate", SOUND)

PEER = ["api/peer/peer.go"]
prop("W01", "Peer messages are written in the exact BEP 3 layout",
 "Every peer message that is sent is one 4-byte big-endian length, the one-byte identifier of its kind and its fields in protocol order: choke, unchoke, interested and not-interested carry nothing, have one 32-bit index, request and cancel three 32-bit numbers (index, begin, length), piece two (index, begin) followed by the block, bitfield the bit bytes; the length counts exactly what follows it, a keepalive is length zero, and accessors read the same fields the constructors wrote. An unknown kind is an error, not bytes on the wire.",
 ["inputs"], "every message and every field value",
 "Layout must hold for all index, offset and payload values; tests encode a few fixed messages.",
 PEER, [("Message encoding", "api/peer/peer.go")],
 WALK + "byte-layout image of the writes, compared with the protocol tables", SOUND)
prop("W02", "Peer messages are read from the right bytes, whole, and bounded",
 "Decoding takes each field from its protocol position, consumes exactly one message per call so that the stream stays in step, refuses every length that does not fit its kind, accepts every well-formed message with a block or bitfield of up to 128 KiB, and never lets an announced length size an allocation beyond a constant.",
 ["inputs"], "every byte stream a remote peer can send",
 "Remote input is unbounded; tests decode a few well-formed messages.",
 PEER, [("Message decoding", "api/peer/peer.go")],
 WALK + "stream-offset analysis of reads, linear bounds on lengths and allocations", SOUND)
prop("W03", "The handshake has the BEP 3 layout and foreign ones are refused",
 "The handshake that is written is byte 19, 'BitTorrent protocol', 8 reserved bytes, the 20-byte info-hash and the 20-byte peer id, in this order, 68 bytes in all; reading takes each field from these positions, consumes exactly 68 bytes, and any other length byte or protocol name is an error.",
 ["inputs"], "every handshake written or received",
 "A swapped or shifted field interoperates with itself in tests and with nobody else.",
 PEER, [("Handshake encoding and decoding", "api/peer/peer.go")],
 WALK + "byte-layout image and stream-offset analysis", SOUND)
prop("W04", "The wire codec and bitfields never crash and lose no error",
 "Whatever bytes a peer sends and whatever indices they contain, decoding and encoding messages and handshakes, reading their fields after a successful decode, logging them, and looking up, listing or subtracting bitfields ends without a panic; every short read, failed write or malformed message is reported as an error.",
 ["inputs", "fault_sequences"], "every byte stream, message and index",
 "A crash needs one particular length or index out of billions.",
 PEER + ["bitfield/bitfield.go"], [("Decode and accessors", "api/peer/peer.go"), ("Bitfield", "bitfield/bitfield.go")],
 WALK + "index/nil/panic obligations by linear inequalities, error-value typestate", SOUND)

ST = ["storage/storage.go", "storage/torrent.go"]
prop("S01", "A piece counts only after its data was verified",
 "A piece is marked complete only after the SHA-1 of exactly the bytes that were written to its file was found equal to the hash in the metainfo, and that file was put in its place without an error; at start a piece counts only if a file with its exact name and length (or the complete torrent) is found. The torrent is marked complete only after its file or directory was put in place without an error, or was found there.",
 ["inputs", "fault_sequences"], "every sequence of blocks, every write error, every state of the work directory",
 "Whether some path marks unverified data complete is a statement about all paths; tests try one corrupt piece.",
 ST, [("Storage.PutBlock", "storage/storage.go"), ("Storage.Load", "storage/storage.go"), ("Torrent.completePiece", "storage/torrent.go")],
 WALK + "content-flow (reader to writer) analysis with must-precede typestate", SOUND + "That files keep their content after they were put in place is not checked (Load trusts files of the right name and length).")
prop("S04", "Only whole, aligned, new blocks are taken, each once",
 "A block is kept only if its index and offset name a block of the torrent, the offset is a multiple of the block length, its length is exactly what the piece has at this offset (one block length, or the rest of the piece), neither torrent nor piece is complete and the slot is empty. It is kept unchanged in the slot its offset names, the count of blocks goes up by one exactly then, and a piece is assembled exactly when all its slots are filled. Each piece carries the hash, index and length its metainfo names and slots for exactly its length.",
 ["inputs", "histories"], "every index, offset and length a remote peer can send, in every order",
 "Tests put a few valid blocks; remote peers choose any numbers.",
 ST, [("checkBlockSize", "storage/storage.go"), ("Piece.putBlock", "storage/torrent.go"), ("newPiece", "storage/torrent.go")],
 WALK + "linear inequalities over index, offset and length at the point where the block is kept", SOUND + "The piece length itself comes from the metainfo (see M02).")
prop("S05", "Files are only touched inside the configured directories",
 "Whatever names a metainfo contains, every path that is opened, created, renamed, listed or removed lies inside the target or work directory (or is a temporary created there): path elements from the metainfo are used only after they were found to be local, and what is renamed over or removed is never the configured directory itself.",
 ["inputs"], "every torrent name and file path",
 "Path traversal needs a hostile name; the space of names is unbounded.",
 ST + ["storage/lazy_file_reader.go"], [("targetPath, localPath", "storage/storage.go")],
 WALK + "provenance (taint) analysis of path arguments with sanitizer facts", SOUND + "Symbolic links inside the directories are not considered.")
prop("S06", "Completion is recorded once and everyone waiting is told",
 "A piece becomes complete at most once; exactly then the count of complete pieces goes up by one, its own bit is set in the bitfield and its length is added to the downloaded bytes. Everyone waiting for a piece or for the torrent is told of success exactly when it is complete, and told of the failure (which the caller gets, too) when assembling it fails; a failed piece is reset as a whole and can be downloaded again. The torrent is put together only when all pieces are complete and before the last block is acknowledged. A future has its value before it is done and keeps its first value.",
 ["histories", "fault_sequences"], "every order of blocks, every failing write",
 "A waiter that is never told or a counter that drifts shows only after one particular failure.",
 ST + ["future/future.go"], [("Piece.putBlock, completePiece", "storage/torrent.go"), ("Future", "future/future.go")],
 WALK + "typestate of completion flags, counters and futures along every path", SOUND)
prop("S02", "Results are put in place whole, under one name, and no litter stays",
 "A piece or file is assembled in a temporary file aside and appears under its final name only by a rename after it was written whole and closed; what is found complete at start is looked for under the same name. Piece files and temporaries are removed only after the torrent was put in place, and a temporary never stays behind after an error.",
 ["fault_sequences", "crash_points"], "every failing write and rename, a stop at any point",
 "A torn result needs a failure or stop at one particular point between two system calls.",
 ST, [("Torrent.completePiece, CompleteTorrent", "storage/torrent.go"), ("Storage.Load", "storage/storage.go")],
 WALK + "typestate of temporaries (created, written, closed, renamed, removed)", SOUND + "Power loss is out of scope (nothing is synced).")
prop("S03", "Exactly the requested block of a complete piece is read",
 "A block is returned only when its piece (or the torrent) is complete and the request lies within the piece; then it is exactly as long as requested and was read as a whole from the file of this piece at its offset or, from a complete single-file torrent, from its file at the index times the piece length plus the offset.",
 ["inputs"], "every index, offset and length a remote peer can request",
 "Requests are chosen by remote peers; tests read a few valid blocks.",
 ST, [("Storage.GetBlock", "storage/storage.go")],
 WALK + "linear inequalities over request, offsets and lengths; completion typestate", SOUND)
prop("S10", "The torrent is assembled from all pieces in order, each file in its place",
 "A complete torrent consists of the content of all piece files in order of their index and nothing else: for a single file it is written to the target path, for several files each file of the metainfo gets exactly its length from this stream, in the order of the metainfo, under its own path inside the directory named after the torrent. Which of the two applies depends only on the metainfo.",
 ["inputs", "fault_sequences"], "every metainfo and every failing read or write",
 "Which bytes land where must be right for any number of pieces, files and lengths.",
 ST + ["storage/lazy_file_reader.go"], [("Torrent.CompleteTorrent", "storage/torrent.go"), ("lazyFileReader", "storage/lazy_file_reader.go")],
 WALK + "inductive loop analysis of the stream's sources and sinks", SOUND)
prop("S12", "Storage never crashes and loses no error",
 "Whatever index, offset or block a remote peer names and whatever the directories contain, loading, reading and storing ends without a panic, and every error of the file system is reported to the caller.",
 ["inputs", "fault_sequences"], "every request, every metainfo that loads, every file system error",
 "A crash needs one particular index, a lost error one particular failing call.",
 ST + ["storage/lazy_file_reader.go"], [("Storage", "storage/storage.go"), ("Torrent", "storage/torrent.go")],
 WALK + "index/nil/panic obligations by linear inequalities, error-value typestate", SOUND)
prop("S13", "A block that spans files is put together from the right parts",
 "Reading a block of a complete torrent of several files goes through its files in order; the part of each is read from the file's own path, beginning where the block begins in it (or at its beginning), and put where the block was filled so far; a file is skipped only if the block has no byte in it, and the block is returned only when it is full.",
 ["inputs"], "every layout of files and every request",
 "Off-by-one errors at file borders show only for particular file lengths and offsets.",
 ["storage/storage.go"], [("Storage.GetBlock", "storage/storage.go")],
 WALK + "inductive loop analysis with linear inequalities over position, offset and fill", SOUND + "That a request is given up only when no file is left is not checked.")

P2P = ["p2p/server.go", "p2p/peer.go", "p2p/multitracker.go"]

prop("P01", "Only peers of this torrent with a valid handshake take part, each once",
 "A connection takes part (is active, gets messages, has its messages handled) only after both handshakes: ours carries this torrent's info hash and our peer ID; theirs was read without error, names the same info hash and the peer ID that the tracker told of a dialled peer (if any), and not our own ID. Each identity (peer ID and IP) is active at most once, the number of active peers is limited, and the first message to each is the bitfield of the pieces complete by then.",
 ["inputs", "schedules", "histories"], "every handshake, every order of simultaneous connections",
 "There are no tests of the p2p package; duplicates and limits need simultaneous connections, the rest hostile peers.",
 P2P, [("Server.Connect", "p2p/server.go"), ("Peer.Handshake", "p2p/peer.go"), ("Server.register", "p2p/server.go")],
 WALK + "registration typestate, dominating checks under one lock hold, message order", SOUND + "Blocked addresses are the matter of P04.")

prop("P02", "Every wait of the client ends",
 "No peer, tracker or other goroutine can make the client wait forever: everything read from or written to a peer has a deadline within minutes, connecting and tracker requests have time limits, every channel operation has an alternative that is sure to happen (the end of its context, a timer) or answers an event that already happened, loops that wait end when their context does, and goroutines that are waited for always report back.",
 ["schedules", "fault_sequences"], "every silent or stalled peer and tracker, at any moment, and stopping at any moment",
 "Needs a party that falls silent at a particular moment, and waiting to see that nothing happens.",
 P2P, [("Peer.send, Receive, Handshake", "p2p/peer.go"), ("Server.DialPeers, RequestPieces, every", "p2p/server.go"), ("httpClient", "p2p/multitracker.go")],
 WALK + "deadline typestate per connection and direction, wait-alternative and loop-exit analysis", SOUND + "Waiting for locks is the matter of C04 and C05; deadlines are taken to be honoured by the network layer.")

prop("P03", "Chokes and interest are obeyed and announced",
 "Each CHOKE, UNCHOKE, INTERESTED and NOT_INTERESTED a peer sends changes exactly the flag it stands for, and each such message of ours is sent exactly when our own flag changes, in the order of the changes. Both sides start choked and not interested. No block is requested from a peer that chokes us; a CHOKE ends every outstanding request with an error. A block is served only to an unchoked peer, only as it was requested.",
 ["histories", "schedules", "inputs"], "all orders of messages and of our own decisions, on every connection",
 "There are no tests of the p2p package; mistakes show only after a particular order of messages.",
 P2P, [("Peer.HandleMessage", "p2p/peer.go"), ("Peer.RequestBlock", "p2p/peer.go"), ("Server.AddPeer", "p2p/server.go")],
 WALK + "flag typestate over all message handlers, event ordering", SOUND + "Message delivery itself is the network's.")

prop("P04", "Only requested data is stored and counted, and liars are blocked",
 "A received block is stored only while a request for exactly this block (piece, offset, length) is outstanding with the peer that sent it, where the message says. Each new block is counted once, for the peer and for the server, and so is each block that was sent; nothing else is counted. A peer that completes a piece with a wrong hash is disconnected and all its known addresses are blocked before they are forgotten; nobody else is blocked. Blocked addresses are not queued and not dialled, however the address is written.",
 ["inputs", "histories", "schedules"], "every block at every moment, every outcome of storing it, all addresses",
 "Needs late, duplicate or wrong blocks from real peers, and knowledge of several addresses of one peer.",
 P2P, [("Peer.HandlePiece, putBlock", "p2p/peer.go"), ("Server.Block, register", "p2p/server.go"), ("Server.AddPeer, dialPeer", "p2p/server.go")],
 WALK + "dominating map-membership checks under one lock hold, counting of effects per path, loop coverage", SOUND + "Inbound connections of blocked peers from other ports are accepted; that is not claimed.")

prop("P05", "No request, piece or peer is forgotten",
 "A block is requested only while its request is registered with the peer, and whoever registered it takes it off again when it ends. A request is taken off by others only when its requester is told the outcome; who requests a block reports success only if it was told so. A piece is in flight with at most one peer at a time, and is released exactly once however its download ends. A peer is in the download queue, or being asked, exactly while it is marked as queued, and only once; it is left out only if it was found, under the same lock, closed, choking us or without a piece for us; and when a peer unchokes us or announces pieces it is put into the queue after this was recorded.",
 ["schedules", "histories"], "all orders of messages, of requests that end, time out or are answered, and of taking peers from the queue",
 "A forgotten request or peer shows as a download that never ends, and only for one order of events in different goroutines.",
 P2P, [("Peer.requestBlock, completeRequest", "p2p/peer.go"), ("Server.queuePeer, RequestPieces, requestPieceFromPeer", "p2p/server.go"), ("Peer.HandleHave, HandleMessage", "p2p/peer.go")],
 WALK + "resource accounting per path and goroutine (registration, piece in flight, queue membership), recheck under the lock", SOUND + "That a peer answers is not claimed; a peer that does not fit into the full queue is queued again by its next message.")

prop("P06", "Pieces are requested whole when missing and announced when complete",
 "A piece is requested from a peer only if the peer has it and it is missing here. It is emptied first and then requested as consecutive blocks, each starting where the last one ended, none longer than a block or past the end, from its start to its end; it is waited for only after all of its blocks were requested, and announced to others only once it is complete (verified), and then to every active peer that is not closed, even if sending to one of them fails. A peer is told of our interest when it turns out to have a missing piece; interest is taken back only when it has none, and this cannot change before the message is sent.",
 ["inputs", "schedules"], "all piece lengths, all sets of pieces, all failures of peers",
 "Tests do not cover the client; errors show only for particular lengths (last piece, last block) or for failing peers.",
 P2P, [("Peer.requestPiece, requestBlock", "p2p/peer.go"), ("Server.requestPieceFromPeer, requestPiece, missingPieces", "p2p/server.go"), ("Peer.HandleHave, NotInterest", "p2p/peer.go")],
 WALK + "closed forms of loop iterations in a linear-inequality domain, dominating completeness checks, loop coverage", SOUND + "Which missing piece is asked for first is P08.")

prop("P07", "Connections end cleanly, and the client stops completely",
 "Every connection that was accepted or dialled is closed once the goroutine that serves it ends, closing happens once, cancels the peer's work and closes its connection, and every context made is cancelled or its cancel function kept. A peer that ended, was disconnected or was blocked is taken, under the server's lock, out of the active peers (its own entry only) and out of the peers of each of its pieces; peers are served only while holding a connection slot, and each slot is given back exactly once. Stopping cancels everything, closes the listener, tells the trackers and closes every active peer even if one of these fails, and starting stops everything again however it ends.",
 ["inputs", "schedules", "fault_sequences"], "all ways a connection can end, all orders of closing and registering, all failures while stopping",
 "Tests do not cover the client; leaks of connections, slots and registrations need a particular failure or order of events.",
 P2P, [("Server.Serve, dialPeer, disconnect, Start, Stop", "p2p/server.go"), ("Peer.serve, Close", "p2p/peer.go")],
 WALK + "ownership typestate of connections, slots and cancel functions over goroutines, registration/removal pairing", SOUND + "That a blocked call returns when its connection is closed is the operating system's.")

prop("P08", "The rarest missing pieces are asked for first",
"Of the pieces that a peer has and that are missing here, those which fewer of the known peers have are asked for before those which more of them have. The number of peers that have a piece is counted from what the peers announced (bitfields and have messages), each peer once for each piece, and follows every registration and removal of a peer.",
["inputs", "schedules"], "all sets of peers and of announced pieces, all lengths of lists",
"Tests do not cover the client; a wrong order still downloads everything and shows only in how a swarm fares.",
P2P, [("Server.missingPieces, requestPieces", "p2p/server.go"), ("Peer.HandleHave, HandleBitfield", "p2p/peer.go")],
WALK + "comparator summaries checked against the order of counts, provenance of the counts", SOUND + "The order among pieces that equally many peers have is free.")

prop("P09", "While it runs, the client keeps accepting, dialling and unchoking",
"Every peer that a tracker lists is handed on to be dialled, unless the queue is full or the peer is known, blocked or without an address, and each one queued is dialled; a handshake is tried on every connection there is room for; every message received from an active peer is handled. At every tick, whatever came of the ticks before, every active peer that is choked and not closed is unchoked and the trackers are announced to. What keeps the client going ends only when it stops, or nothing can be accepted any more, and a client that was started does all of this.",
["inputs", "schedules", "fault_sequences"], "all lists of peers, all failures of single peers, connections and trackers, all numbers of rounds",
"Tests do not cover the client; a loop that ends early or skips an element needs a particular failure or list.",
P2P, [("Server.Serve, Start, Announce, AddPeer, UnchokePeers", "p2p/server.go"), ("Peer.serve", "p2p/peer.go")],
WALK + "loop coverage and continuation (which iterations may leave the loop, and why) over goroutines and tickers", SOUND + "How often ticks come, and how long a peer or tracker takes to answer, is not decided.")

prop("P10", "The client never crashes and loses no error",
 "Whatever remote peers, trackers and storage answer, no function of server, peers and tracker client panics: every index, slice, conversion and dereference is in range, message fields are read only from messages of the right type, the index of a piece is used only if it is valid, a peer's bitfield has a bit for every piece. No error is dropped: it is returned, recorded, reported, or (with trackers) followed by the next attempt.",
 ["inputs", "fault_sequences"], "every message, every answer of a tracker, every failing call",
 "A crash needs one particular message or answer; a lost error one particular failing call.",
 P2P, [("Server", "p2p/server.go"), ("Peer.HandleMessage", "p2p/peer.go"), ("Multitracker", "p2p/multitracker.go")],
 WALK + "index/nil/panic obligations by linear inequalities, error-value typestate", SOUND + "Exported functions that take the index of a piece rely on their caller; panics of the logger are its own.")

TRK = ["p2p/multitracker.go", "p2p/server.go", "api/tracker/tracker.go"]

prop("T01", "Trackers are told the truth, and only usable answers are taken",
"Every request to a tracker names the torrent's info hash, this client's id and port, the bytes sent and received so far, what is still missing of the whole torrent, and the event that the method stands for, and goes to the tracker's own address with that address's own parameters kept. An answer is returned only if it was decoded from the whole body and is no failure, and then has an interval between 1 s and a day (or the default) and a list of peers. An error is returned only if the request failed, the tracker reports one, or the answer cannot be read; the body is closed in any case.",
["inputs", "fault_sequences"], "all torrents, addresses of trackers, amounts and answers",
"No test talks to a tracker; a wrong amount or a lost parameter of an address shows only at a real tracker.",
TRK, [("Tracker.get, Start, Stop, Complete, Announce", "p2p/multitracker.go"), ("Server.Uploaded, Downloaded", "p2p/server.go"), ("Request.Encode", "api/tracker/tracker.go")],
WALK + "provenance of each field of the request and of the answer that is returned; must-close of the body", SOUND + "The HTTP client and the bencode decoder are taken at their contract (the decoder has its own properties).")

prop("T03", "Every tracker is asked until one answers, which is then asked first",
"A client has a tracker for each announced address, in a tier for each announced list (the single announce address if there are no lists). An announce asks the trackers of the tiers in turn, all of them, each one only after the one before failed, and returns the answer of the one that answered, or an error if none did. The tracker that answered becomes the first of its tier, which keeps its other trackers, while nothing else changes the tier.",
["inputs", "fault_sequences", "schedules"], "all numbers and lengths of tiers, all failing trackers, concurrent announces",
"No test has more than one tracker; a tracker that is passed over, or lost from its tier, shows only after a particular one failed.",
TRK, [("NewMultitracker, Multitracker.get, tier, promote", "p2p/multitracker.go")],
WALK + "loop coverage (next exactly after a failure), symbolic rearrangement of list segments, same-hold of the lock", SOUND + "The order within a tier otherwise is free.")

prop("T04", "The tracker keeps and lists exactly the clients that announce themselves",
"Every request to the tracker is answered once: it is refused, with a reason, exactly if it is malformed or names a torrent that is not known; otherwise the client is entered under its canonical address (or its entry renewed) with the id, port, event and time of this announce, while nobody else changes the entries. The answer has the interval, and lists all other clients of the torrent that did not stop and were not silent for too long, with their address, port and id, in the form that was asked for. Clients are forgotten only if they stopped or were silent for longer than that, and are looked through again and again; there is an entry for every torrent that the tracker was made for.",
["inputs", "schedules", "histories"], "all requests, all histories of announces, concurrent announces and removals",
"Tests announce one client or two; a client that is lost, listed twice or with another's data needs a particular history.",
["pex/http.go"], [("HTTP.ServeHTTP", "pex/http.go"), ("NewHTTP", "pex/http.go")],
WALK + "provenance of every field that is entered and listed, loop coverage with the exact reasons for leaving out, same-hold of the lock", SOUND + "The HTTP server, URL parser and clock are taken at their contract.")

prop("T02", "Announces and lists of peers are read as they were written",
"The compact form of a list of peers has six bytes for each peer, its IPv4 address and its port (big endian), all of them in order; peers that do not fit it are refused, and without it the list itself is written. Either form is read as one peer for each entry, with that entry's address, port and id; an incomplete entry, or something that is no list of peers, is refused. Every field of an announce that is not empty is written to the query under its standard name and read from that name, and an announce of which a field is malformed is refused.",
["inputs"], "all lists of peers, all addresses and ports, all queries",
"Tests have a list or two of well-formed peers; a lost last entry, a port past 32767 or a misplaced byte needs another list.",
["api/tracker/tracker.go"], [("Peers.MarshalBencoding, UnmarshalBencoding", "api/tracker/tracker.go"), ("Request.Encode, Decode", "api/tracker/tracker.go")],
WALK + "byte-image dataflow of the compact form, per-iteration summaries of loops in a linear-inequality domain, loop coverage, provenance of every field", SOUND + "net.IP, strconv and net/url are taken at their contract; the bencode layer below has its own properties.")

prop("T05", "Torrent files, links and announces never crash or silently fail a reader",
"Whatever a torrent file, a magnet link, an announce or a tracker's answer contains, reading it, and serving announces, ends without a panic: every index, slice, conversion to an array, type assertion and dereference of something looked up succeeds on every path, and every peer list, torrent file and request can be written. No error is lost: a function that succeeds knows that everything it called and that can fail has succeeded.",
["inputs", "fault_sequences"], "all byte strings, links, queries and lists of peers",
"A crash needs one particular malformed input, a lost error one particular failing call; tests have a handful of well-formed ones.",
["api/metainfo/metainfo.go", "api/magnet/magnet.go", "api/tracker/tracker.go", "pex/http.go"], [("Pieces.UnmarshalBencoding, Info.UnmarshalBencoding, Time.UnmarshalBencoding", "api/metainfo/metainfo.go"), ("ParseMagnetURL", "api/magnet/magnet.go"), ("Peers.UnmarshalBencoding, Request.Decode", "api/tracker/tracker.go"), ("HTTP.ServeHTTP", "pex/http.go")],
WALK + "index/nil/panic obligations by linear inequalities, error-value typestate", SOUND + "The bencode decoder below is B01 and B04; methods of a nil torrent are the caller's fault.")

prop("M01", "Torrent files and magnet links mean what they say",
"The fields of a torrent file have their standard names, and required ones are never left out. The length of a torrent is that of its one file, or the sum of the lengths of all its files; every piece has the common length and the last one what is left. The hashes of the pieces are written and read one after the other, 20 bytes each, all of them, and anything else is refused; times are seconds since 1970; each part of a magnet link is read from its parameter (every one given, where there may be several), and a link is refused only if it, or the length in it, is malformed.",
["inputs"], "all torrent files, piece counts, file lists and links",
"Tests have one torrent and one link; a lost last hash, a file not counted or a wrong last piece shows only with other sizes.",
["api/metainfo/metainfo.go", "api/magnet/magnet.go"], [("Info.GetLength, GetPieceLength", "api/metainfo/metainfo.go"), ("Pieces.MarshalBencoding, UnmarshalBencoding; Time; struct tags", "api/metainfo/metainfo.go"), ("ParseMagnetURL", "api/magnet/magnet.go")],
WALK + "closed forms of loops (sums, byte images, lists that grow) in a linear-inequality domain, provenance of every field, struct-tag rules", SOUND + "That the lengths of a torrent fit its pieces is checked by storage (S12).")

na("N01", "Every value that can be written is read back as it was",
"For every value that encoding accepts and that has one meaning (no duplicate names, no nil inside a list), decoding what was written into a fresh variable of the same type gives an equal value, and encoding that again gives the same bytes.",
["inputs"], "all types and values", "Tests have some dozen values; equality has to hold for every type and nesting.",
["bencode/encode.go", "bencode/decode.go"], [("Marshal", "bencode/encode.go"), ("Unmarshal", "bencode/decode.go")],
"Equality of arbitrary runtime values through reflection, over all types, is not a fact about constructs of the source that a dataflow domain bounds. Its static parts are claimed: both directions handle the same kinds with matching accessors (B06, B07), grammar and order (B04, B05), raw values (B03).")

na("N02", "A download ends if the pieces can be had",
"If connected peers that answer requests together have every piece, every piece is eventually downloaded, whatever the order of their messages, their choking and their failures.",
["schedules", "histories"], "all schedules of messages and goroutines", "Tests run one friendly peer.",
["p2p/server.go", "p2p/peer.go"], [("Server.RequestPieces and its queues", "p2p/server.go"), ("Peer.serve", "p2p/peer.go")],
"Liveness under fairness of goroutines and remote peers needs a ranking over runtime queues and clocks that no sound static argument in reach gives. The safety parts that progress rests on are claimed: nothing in flight, queued or slotted is leaked (P05, P07, P09), loops that hand out work do not stop early (P06, P08), every wait has a bound (P02).")

na("N03", "A torrent survives a power failure",
"After the machine stops at any moment, whatever the storage then takes as complete is complete on the disk.",
["crash_points"], "all orders in which a file system may persist writes", "Tests never lose power.",
["storage/storage.go"], [("Storage.coalescePieces", "storage/storage.go"), ("Storage.coalesceBlocks", "storage/storage.go")],
"Which writes survive is decided by the file system, and drip never syncs: it does not promise this, so there is no obligation in the source to check. Crashes of the process alone (written aside, complete, then renamed) are claimed in S02.")
