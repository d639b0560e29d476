#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (one place to edit the statements).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe, hook_needed=hook)))

p("C01", "Bencode values survive an encode/decode round trip",
  "For every value the bencode package can encode (integers, strings, byte strings, lists, arrays, string-keyed dictionaries, structs with tags, embedding and omitempty, pointers, interfaces and custom marshalers, nested arbitrarily), decoding the encoding into a fresh value of the same type gives back an equal value. The only permitted differences are those the format cannot express: nil and omitted-empty dictionary entries come back as zero values, and nil list elements are dropped; unsigned values above the signed 64-bit range are only decodable into unsigned destinations, and a top-level nil has no encoding. Custom marshalers are assumed to emit well-formed bencode that their unmarshaler understands. Encoding the decoded value again yields the same bytes, except that a container marked omitempty which held only nil entries may disappear.",
  ["inputs", "programs"], "All Go types the package supports and all values of them, including dictionaries with empty keys, full-range signed and unsigned integers and nested pointers.",
  "The tests check about forty literal values against literal strings, encode and decode separately, and never feed one into the other.",
  ["bencode/encode.go", "bencode/decode.go", "bencode/raw_message.go"],
  [("reflective encoder and decoder sharing one field table", "bencode/encode.go: encode, getFieldsForStruct; bencode/decode.go: decode")],
  ["bencode.Marshal / bencode.Unmarshal, Encoder.Encode / Decoder.Decode"])

p("C02", "Encoder output is the single canonical bencoding of the value",
  "Every successful encoding is exactly one well-formed bencode value whose structure mirrors the input: dictionary keys are unique and in ascending byte order, integers are in minimal decimal form, strings carry their exact byte length, and every key is followed by its value. The same value always encodes to the same bytes, whatever the map iteration order, and a value that contains an unsupported type, a failing custom marshaler or a reference cycle yields an error. An error of the writer is reported, and what it was given by then is the beginning of that encoding.",
  ["inputs", "programs"], "All supported Go types and values, including maps with nil entries, nil pointers behind interfaces, and cyclic values.",
  "The tests compare a handful of literals; map order, nil entries and key order over arbitrary key sets are unbounded.",
  ["bencode/encode.go"],
  [("sorted map keys and sorted field table", "bencode/encode.go: encodeMap, getFieldsForStruct"), ("nil entries are skipped with their key", "bencode/encode.go: encodeStruct, encodeMap"), ("depth limit against cycles", "bencode/encode.go: ptrDepth")],
  ["bencode.Marshal, bencode.Encoder"])

p("C03", "Decoder accepts exactly well-formed bencode and yields what it denotes",
  "Decoding a byte string into a generic value succeeds exactly when it begins with a well-formed bencode value (dictionary keys strictly ascending, integers in minimal decimal form and within the signed 64-bit range, nesting no deeper than the decoder's limit of ten thousand levels; whether a string length may have leading zeros is left open), and the result is the value those bytes denote; anything else returns an error. What is kept as it is (a raw message) or passed over (unknown keys, elements beyond the end of an array) is judged by the same grammar, whatever the size of its integers. A decoder reads exactly the bytes of one value, so values concatenated on a stream decode one after another in order, however the underlying reader splits the data.",
  ["inputs"], "All byte strings, all concatenations of values, and all ways a reader may split them.",
  "The tests use about sixty short literals, one value per input, always delivered in one piece.",
  ["bencode/decode.go"],
  [("recursive descent decoder over a buffered reader", "bencode/decode.go: decode, decodeInterface, consume"), ("key order and leading-zero checks", "bencode/decode.go: decodeMap, decodeStruct, consumeDictionary, leadingZero")],
  ["bencode.Unmarshal into any, bencode.Decoder.Decode repeatedly"])

p("C04", "Hostile bencode is rejected cleanly and cheaply",
  "Decoding any byte string into any supported destination type either succeeds or returns an error: it never panics, never overflows the stack, always terminates, and never allocates memory out of proportion to the bytes actually supplied, whatever lengths or nesting the input claims.",
  ["inputs", "programs"], "All byte strings (negative, signed, huge or lying lengths, deep nesting, truncations, wrong types) into all supported destinations: structs, pointers, slices of pointers, maps, arrays, interfaces already holding a value, and the protocol's own metainfo and tracker types.",
  "The tests contain a few malformed inputs into simple destinations; none has a negative or lying length, deep nesting, or a destination with nil pointers.",
  ["bencode/decode.go", "api/metainfo/metainfo.go", "api/tracker/tracker.go"],
  [("length validation before allocation", "bencode/decode.go: decodeString, consumeString"), ("nesting limit", "bencode/decode.go")],
  ["bencode.Unmarshal, bencode.Decoder"])

p("C05", "Typed decoding fills the right fields and isolates everything else",
  "Decoding a dictionary into a struct sets each field whose key is present to exactly the value denoted, leaves fields whose key is absent untouched, and ignores unknown keys of any shape without affecting the others; raw messages and custom unmarshalers receive exactly the original bytes of their value. An integer that does not fit the destination, or a value of the wrong kind, is reported as an error rather than stored altered, and a destination that cannot take the value (nil, no pointer, of an unsupported type, leading back to itself) is an error and never a panic.",
  ["inputs", "programs"], "All dictionaries with any mixture of known and unknown keys (including values only skipped), all integer widths and signs, raw captures nested at any depth, destinations that already hold data.",
  "The tests decode a few small dictionaries; unknown keys carry one string and one small integer, narrow integers are never exceeded, raw capture is not tested.",
  ["bencode/decode.go", "bencode/encode.go", "bencode/raw_message.go"],
  [("field table lookup", "bencode/decode.go: decodeStruct; bencode/encode.go: getFieldsForStruct"), ("byte-exact capture of skipped values", "bencode/decode.go: consume")],
  ["bencode.Unmarshal into structs, bencode.RawMessage, Unmarshaler"])

p("C06", "A torrent's identity is the SHA-1 of its exact info bytes",
  "When a metainfo file is parsed, the info hash equals the SHA-1 of the exact bytes of the info dictionary as they stand in the file, including keys the client does not know, and every known field (name, lengths, piece hashes, file list with paths, announce list, dates) has the value in the file. A known field whose value is of the wrong kind is an error. This holds for single-file and multi-file torrents, and also when the value parsed into held another torrent's info before.",
  ["inputs"], "All well-formed metainfo files: any number of pieces and files, any unknown keys anywhere, any values.",
  "One test parses one four-key single-file info dictionary; no test parses a whole metainfo file, a multi-file one, or one with unknown keys.",
  ["api/metainfo/metainfo.go", "bencode/decode.go"],
  [("raw capture of the info dictionary, hashed as received", "api/metainfo/metainfo.go: Info.UnmarshalBencoding"), ("piece string split into 20-byte hashes", "api/metainfo/metainfo.go: Pieces.UnmarshalBencoding")],
  ["bencode.Unmarshal into metainfo.Metainfo"])

p("C07", "Metainfo written by the client reads back unchanged",
  "Encoding a metainfo value and decoding it again reproduces every field (creation date to the second, piece hashes in order, multi-file lists, announce tiers), and its info hash is the SHA-1 of the encoded info dictionary. A pieces string that is not a whole number of 20-byte hashes is rejected.",
  ["inputs"], "All metainfo values with any pieces, files, tiers and optional fields present or absent.",
  "Time and Pieces each have one literal in each direction; Info and Metainfo are never encoded.",
  ["api/metainfo/metainfo.go", "bencode/encode.go", "bencode/decode.go"],
  [("custom marshalers of Time, Pieces and Info", "api/metainfo/metainfo.go")],
  ["bencode.Marshal(*metainfo.Metainfo), bencode.Unmarshal"])

p("C08", "Magnet links are parsed losslessly",
  "Parsing a magnet link returns exactly the topic, name, length, trackers, web seed and peers it encodes, percent- and plus-decoded, with repeated trackers and peers in order and other parameters ignored; absent parameters are empty. A length that is not a decimal integer, or a link that is not a URL, is an error.",
  ["inputs"], "All magnet links built from arbitrary field values, parameter orders and escapings.",
  "One literal link is tested.",
  ["api/magnet/magnet.go"],
  [("query parsing", "api/magnet/magnet.go: ParseMagnetURL")],
  ["magnet.ParseMagnetURL"])

p("C09", "Announce requests survive the query string",
  "Encoding an announce request as a query string and decoding it yields the same request, for every info hash and peer id byte pattern, counter, port, address and event; the encoded query is a valid URL query with the standard BEP 3 parameter names. A query that cannot be parsed, or has a malformed number or a hash or id that is not 20 bytes, is an error, not a silently different request.",
  ["inputs"], "All requests (all byte patterns in the 20-byte fields, full 64-bit counters) and all malformed numeric parameters.",
  "One literal request is encoded and decoded.",
  ["api/tracker/tracker.go"],
  [("parameter table", "api/tracker/tracker.go: Request.Encode, Request.Decode")],
  ["tracker.Request.Encode / Decode, net/url.ParseQuery of the result"])

p("C10", "Tracker responses are encoded and decoded faithfully in both peer forms",
  "A tracker response with any peer list, encoded in compact or dictionary form, is well-formed and decodes to the same interval, messages and peers in the same order (compact form keeps exactly each peer's IPv4 address and port, and refuses peers it cannot express). Dictionary peers may lack a peer id. Decoding over an earlier response's peers leaves nothing of them. Any malformed peers value, whatever its shape, is reported as an error and never crashes the client.",
  ["inputs"], "All peer lists including empty ones, all 65536 ports, all IPv4 addresses, IPv6 addresses, and all malformed peers values.",
  "Two literal lists in each form; no empty list, no malformed list, no whole response.",
  ["api/tracker/tracker.go"],
  [("compact packing and unpacking", "api/tracker/tracker.go: compactPeers, parseCompactPeers, parsePeers, Peers.MarshalBencoding")],
  ["bencode.Marshal / Unmarshal of tracker.Response and tracker.Peers"])

p("C11", "The HTTP tracker hands out exactly the live peers of the torrent",
  "Each successful announce is answered with a well-formed response listing exactly the other peers of that torrent, each once with its announced id, address and port, that announced within the last minute and did not stop; the announcing peer, stopped or expired peers and peers of other torrents never appear, and compact responses list exactly those of them with IPv4 addresses. Announces with an unknown info hash, an unparsable query, a bad address or a port outside 1-65535 are answered with a failure reason and change nothing.",
  ["histories", "inputs"], "All histories of announces (any torrents, addresses in any spelling, ports, events, compact or not) interleaved with the passage of time.",
  "The package has no tests.",
  ["pex/http.go", "api/tracker/tracker.go"],
  [("per-torrent peer table keyed by normalised address", "pex/http.go: ServeHTTP"), ("one-minute expiry and periodic sweep", "pex/http.go: NewHTTP")],
  ["pex.HTTP.ServeHTTP responses"], state=[("Peers", "peers known per torrent", "pex/http.go: Torrent.Peers")])

p("C12", "Announces reach the right tracker and report the truth",
  "Each announce tries the trackers tier by tier and in order within a tier until one succeeds, promotes the successful tracker to the front of its tier and changes no other order, and fails only if every tracker failed. Every request carries the torrent's info hash, the client's peer id and port, the event, the session's transfer counters and the number of bytes still missing, and keeps any query parameters already in the announce URL. Of a reply that does not end only a bounded part is read, and the next tracker is tried.",
  ["histories", "fault_sequences", "configurations"], "All tier layouts, all histories of announces and all patterns of tracker failure (connection errors, failure reasons, malformed bodies).",
  "The package has no tests.",
  ["p2p/multitracker.go", "api/tracker/tracker.go"],
  [("tier walk with promotion", "p2p/multitracker.go: Multitracker.get"), ("request construction", "p2p/multitracker.go: Tracker.get")],
  ["HTTP requests received by trackers; results of Multitracker.Start/Announce/Complete/Stop"])

p("C13", "Peer messages and handshakes survive the wire in any fragmentation",
  "Every handshake and every peer message is written in the exact BEP 3 layout and is read back equal, and any sequence of them written to a stream is read back as the same sequence with nothing left over, however the transport splits or coalesces the bytes. A stream that ends inside a handshake or message gives an error, never a truncated message, and a write the transport fails is reported.",
  ["inputs", "schedules"], "All messages of all types with all 32-bit arguments and payloads, all sequences of them, all fragmentations and truncation points.",
  "The tests encode and decode one literal per type, from one contiguous buffer.",
  ["api/peer/peer.go"],
  [("length-prefixed framing", "api/peer/peer.go: Message.Encode, Message.Decode"), ("handshake layout", "api/peer/peer.go: Handshake.Encode, Handshake.Decode")],
  ["peer.Write, peer.ReadHandshake, peer.ReadMessage, MarshalBinary / UnmarshalBinary"])

p("C14", "Hostile peer bytes are rejected cleanly",
  "Reading a handshake or message from any byte stream returns either a message that the bytes fully determine or an error: it never panics, and never allocates memory out of proportion to the bytes received, whatever length the peer claims. A known message whose payload is too short for its fields is an error, a handshake for another protocol is an error, and a message of unknown type is delivered without disturbing the messages after it and can be logged.",
  ["inputs"], "All byte streams.",
  "The tests decode only well-formed messages.",
  ["api/peer/peer.go"],
  [("payload validation per type", "api/peer/peer.go: Message.Decode"), ("protocol string check", "api/peer/peer.go: Handshake.Decode")],
  ["peer.ReadHandshake, peer.ReadMessage"])

p("C15", "A bitfield behaves as a set of piece indexes in BEP 3 bit order",
  "A bitfield of n pieces behaves as a set over 0..n-1: an index is a member exactly after it was added, members are listed once each in ascending order, queries outside the field answer no, and difference is set difference for fields of any lengths and alters neither operand. Its bytes are the BEP 3 wire form: piece 0 is the high bit of the first byte, ceil(n/8) bytes, spare bits zero.",
  ["inputs", "histories"], "All sizes and all histories of additions; all pairs of bitfields of equal or different length.",
  "The tests use 16-bit literals; the one query beyond the field panics in the existing suite.",
  ["bitfield/bitfield.go"],
  [("byte and bit addressing", "bitfield/bitfield.go")],
  ["bitfield.New, Add, Has, Items, Difference and the raw bytes"])

p("C16", "Block reads return exactly the torrent's bytes, or an error",
  "At every moment of a download a block read either returns exactly the requested number of bytes of the torrent's content at that position, or an error; it succeeds for every in-range block of every piece that has been completed, before and after the final files are assembled and after a restart, and fails for pieces that are not complete. This holds for single-file and multi-file torrents with any file boundaries, including zero-length files.",
  ["histories", "inputs"], "All torrent layouts and all histories of block writes (in any order, duplicated), resets, restarts and reads with any offset and length.",
  "The integration tests use one size of torrent, put blocks in order, and read back whole blocks only; the multi-file one reads after completion only.",
  ["storage/storage.go", "storage/torrent.go"],
  [("piece lookup then file offset arithmetic", "storage/storage.go: GetBlock, getBlockFromSingleFile, getBlockFromMultiFile, getBlockFromPiece")],
  ["storage.Storage.GetBlock"])

p("C17", "Storage accepts exactly the blocks of the torrent's 16 KiB grid",
  "The pieces of a torrent partition its content exactly, and each piece is partitioned into 16 KiB blocks with only its last one shorter; a block write is accepted exactly when its piece, offset and length name a block of that grid which has not been stored yet. Every other combination of index, offset and length, in range or far outside it, is refused with an error on both writes and reads, never by a crash or an effect on stored data.",
  ["inputs", "configurations"], "All piece lengths and totals (multiples of the block size or not, shorter than one block) and all index/offset/length triples a peer can send.",
  "The tests check five triples on one geometry and none outside the torrent.",
  ["storage/storage.go", "storage/torrent.go", "api/metainfo/metainfo.go"],
  [("block size check", "storage/storage.go: checkBlockSize"), ("piece geometry", "api/metainfo/metainfo.go: GetPieceLength, GetLength; storage/torrent.go: newPiece")],
  ["storage.Storage.PutBlock / GetBlock, metainfo.Info.GetPieceLength"])

p("C18", "Only data matching its SHA-1 ever becomes part of the torrent",
  "A piece becomes readable, advertised in the bitfield or present in the output only if its bytes match the piece's SHA-1; completing a piece with wrong data reports a checksum error naming that piece and leaves every other piece intact. After a reset the piece can be fetched again any number of times and completes as soon as the right blocks arrive; a reset never undoes or disturbs a piece that is already complete.",
  ["histories", "fault_sequences"], "All interleavings of good and corrupted block writes, resets and completions over all pieces.",
  "The tests write only correct data; no test produces a checksum error or resets a piece.",
  ["storage/storage.go", "storage/torrent.go"],
  [("hash computed over the assembled piece before it is published", "storage/storage.go: coalesceBlocks"), ("reset", "storage/torrent.go: Piece.reset; storage/storage.go: ResetPiece")],
  ["PutBlock errors, GetBlock, Torrent.Bitfield, files under the target and work directories"])

p("C19", "A completed torrent is on disk byte for byte, in the right files",
  "When the last piece completes, the target directory holds exactly the torrent's file or directory tree with exactly the right bytes and lengths, the partial-piece area is gone, and everyone waiting for the torrent is released without error; not before. A new session over the same directories recognises the torrent as complete and serves it without downloading. A torrent of nothing but empty files is complete from the start.",
  ["inputs", "histories"], "All contents, piece lengths, file lists (nested directories, zero-length files, files smaller than a block or spanning many pieces) and block arrival orders, with restarts in between.",
  "The tests compare file sizes only, never file contents, for one layout each.",
  ["storage/storage.go", "storage/lazy_file_reader.go", "storage/torrent.go"],
  [("concatenation of piece files split at file boundaries, then rename", "storage/storage.go: coalescePiecesForSingleFile, coalescePiecesForMultiFile")],
  ["files under the target and work directories, Torrent.Wait, Load"])

p("C20", "A crash at any point loses no completed piece and corrupts nothing",
  "If the process dies at any file-system operation, a new session over the same directories starts without error, still has every piece whose completion had been reported before the crash, treats nothing as complete whose bytes do not match, and can finish the download to the same bytes. An incomplete output is never visible under the torrent's final name.",
  ["crash_points", "histories"], "Every file-system operation (and every prefix of every write) during piece completion, final assembly and reload, in all histories.",
  "No test interrupts an operation; restarts are simulated only at rest.",
  ["storage/storage.go"],
  [("write to a temporary, then rename", "storage/storage.go: coalesceBlocks, coalescePiecesForSingleFile, coalescePiecesForMultiFile"), ("reload from piece files", "storage/storage.go: Load")],
  ["Load, GetBlock and directory contents after the crash"])

p("C21", "File-system errors are reported and recoverable",
  "If any file-system operation fails, the operation that needed it returns an error, which whoever waits for the piece is told as well (nothing is reported complete that is not safely on disk), the process neither crashes nor deadlocks, and no wrong data becomes visible. Once the fault is gone, a piece whose completion failed can be reset and fetched again, and a torrent whose assembly failed completes at the latest on the next start.",
  ["fault_sequences", "histories"], "A fault (error or short write) at any file-system operation of any history, once or repeatedly.",
  "No test makes any file-system operation fail.",
  ["storage/storage.go", "storage/lazy_file_reader.go"],
  [("error propagation", "storage/storage.go: PutBlock, coalesceBlocks, coalescePieces, Load")],
  ["errors from PutBlock, GetBlock, Load; Piece.Wait"])

p("C22", "Concurrent storage use neither deadlocks nor loses a block",
  "Under any interleaving of concurrent block writes, reads, resets and waits, also while another torrent is downloaded over the same two directories, every operation returns, each grid block of a piece is accepted exactly once between resets, every read is exact or refused, and when all blocks have been stored the torrent is complete with correct files. Everyone waiting on a piece is released exactly when that piece completes, fails its checksum or is reset, with the corresponding result, and everyone waiting on the torrent when it completes.",
  ["schedules"], "All interleavings of any number of readers, writers, resetters and waiters.",
  "One test runs eight writers that each read back their own piece once; readers never overlap the writer of the same piece and the Go scheduler picks the interleaving.",
  ["storage/storage.go", "storage/torrent.go", "future/future.go"],
  [("torrent and piece locks", "storage/storage.go: GetBlock, PutBlock, ResetPiece"), ("completion futures", "future/future.go; storage/torrent.go: Piece.Wait, Torrent.Wait")],
  ["results of PutBlock, GetBlock, Piece.Wait, Torrent.Wait"])

p("C23", "A torrent can never touch files outside its own directories",
  "Whatever names and paths a torrent declares (parent references, absolute paths, empty or separator-bearing components), storage creates, changes, deletes and serves only files strictly inside the target and work directories given to it; a torrent whose paths would lead out of its own file or directory there is refused with an error, and files of others stay as they are. Ordinary names, including ones with spaces, dots, leading dots or non-ASCII characters, are accepted.",
  ["inputs"], "All torrent names and file path lists.",
  "The tests use fixed harmless names.",
  ["storage/storage.go", "storage/torrent.go"],
  [("path construction from metainfo", "storage/storage.go: Load, coalescePieces*, getBlockFrom*; storage/torrent.go: FileName")],
  ["every path the storage package passes to the operating system"])

p("C24", "Progress accounting equals the verified bytes",
  "The count of downloaded bytes always equals the total length of the pieces completed so far (verified in this session or found on disk at start), and the bitfield has exactly those pieces' bits set; failed checksums, duplicates, refused blocks and resets change neither. For a finished torrent, freshly completed or reloaded, single-file or multi-file, the count is the torrent's total length.",
  ["histories"], "All histories of writes, corruptions, resets, faults and restarts over all layouts.",
  "No test reads the counter or the bitfield.",
  ["storage/storage.go", "storage/torrent.go"],
  [("counter update", "storage/storage.go: PutBlock, Load"), ("bitfield update", "storage/torrent.go: completePiece")],
  ["Storage.Downloaded, Torrent.Bitfield"])

p("C25", "A download from honest peers completes with the right bytes",
  "If at every moment every missing piece is held by some connected or announced honest peer that keeps serving (it unchokes again after every choke, and delivers a requested block within the ten seconds a request lasts), the session downloads all pieces and ends up with exactly the torrent's files on disk, whatever the number of peers, their piece sets, connection direction, message fragmentation, latency, choking patterns, disconnections and later HAVE messages; this includes swarms made only of such sessions, which start, stop, dial each other at the same moment and lose their connections, as long as the tracker goes on listing them. Pieces already on disk at start are not requested again.",
  ["schedules", "configurations", "fault_sequences"], "All swarms of honest peers and all network timings, chokes and disconnections that leave each piece eventually available.",
  "The package has no tests.",
  ["p2p/server.go", "p2p/peer.go", "storage/storage.go"],
  [("download queue and per-piece in-flight table", "p2p/server.go: RequestPieces, requestPieceFromPeer, queuePeer"), ("block pipeline", "p2p/peer.go: requestPiece, requestBlock")],
  ["files on disk and Torrent.Wait at the end; requests seen by scripted peers"])

p("C26", "No peer can crash, stall or corrupt the session",
  "Whatever bytes, messages, timings or silences peers produce - garbage, out-of-range indexes, oversized bitfields, unsolicited or corrupted pieces, never reading, vanishing mid-message - the session keeps running, the data it stores and serves stays correct, and it still completes the download from an honest peer that keeps serving. A peer that breaks the protocol or delivers corrupted data is disconnected, the requests of a peer that does not read the answers are not collected without limit, and other peers are neither disconnected nor kept waiting for what they are due.",
  ["inputs", "schedules", "fault_sequences"], "All byte streams and timings of any number of misbehaving peers next to an honest one.",
  "The package has no tests.",
  ["p2p/peer.go", "p2p/server.go", "api/peer/peer.go", "storage/storage.go"],
  [("message validation", "p2p/peer.go: HandleMessage, HandleHave"), ("blocking of corrupting peers", "p2p/server.go: Block"), ("deadlines", "p2p/peer.go: Send, Receive, Handshake")],
  ["liveness of the session, files on disk, connection closures seen by scripted peers"])

p("C27", "Upload requests are answered exactly and only when allowed",
  "A connected peer that says it is interested is unchoked within about a minute, whatever the other peers do. From then on the session answers each valid block request with exactly one piece message carrying exactly the requested bytes, in request order; it never sends data to a peer it is choking, never sends bytes of pieces it has not verified, and counts exactly the bytes uploaded. A request it cannot honour (choked, missing piece, outside the torrent, more than it is willing to queue) yields no data: it may close that connection, but a connection that stays open keeps getting its other answers.",
  ["histories", "schedules"], "All sequences of requests, cancels, interest changes and downloads in progress, by any number of peers.",
  "The package has no tests.",
  ["p2p/peer.go", "storage/storage.go"],
  [("request handling", "p2p/peer.go: HandleRequest, HandleCancel"), ("choke state", "p2p/peer.go: Choke, Unchoke; p2p/server.go: UnchokePeers")],
  ["PIECE messages received by scripted peers, Server.Uploaded"])

p("C28", "Only valid, distinct peers are admitted, up to the limit, and slots are freed",
  "A connection exchanges protocol messages only after a handshake for the same torrent from a peer that is not the client itself, has the expected id when one was announced, and is not already connected from that address; at most fifty are connected at once. Every refused or failed connection is closed promptly and leaves nothing behind, and a peer that disconnects frees its slot, so admission keeps working after any history of refusals, failures and departures.",
  ["histories", "schedules"], "All histories of connection attempts, handshake contents (including none, partial and stalled), duplicates, floods above the limit and departures, incoming and outgoing.",
  "The package has no tests.",
  ["p2p/server.go", "p2p/peer.go"],
  [("admission", "p2p/server.go: Connect, Serve, DialPeers, AddPeer"), ("handshake checks", "p2p/peer.go: Handshake"), ("slot release", "p2p/server.go: disconnect")],
  ["what scripted peers receive and when their connections are closed"])

p("C29", "Requests follow the protocol: wanted, available, unchoked, rarest first",
  "The session requests only blocks of the torrent's grid, only of pieces it does not have and the peer has announced, only while that peer is not choking it, and with at most sixteen requests outstanding per peer; no piece is requested from two peers at once, and it declares interest exactly when a peer has pieces it lacks. Among the pieces it could fetch from a peer it picks one that is available from the fewest connected peers.",
  ["schedules", "histories"], "All swarms, bitfields, HAVE sequences, choke changes and timings.",
  "The package has no tests.",
  ["p2p/server.go", "p2p/peer.go"],
  [("piece selection", "p2p/server.go: requestPieceFromPeer, RecordIndex"), ("pipeline limit and choke check", "p2p/peer.go: requestPiece, requestBlock, Send")],
  ["REQUEST and INTERESTED messages received by scripted peers"])

p("C30", "The session announces on schedule, survives odd trackers and stops cleanly",
  "A session announces 'started' once at the beginning, re-announces at the interval the tracker gave, dials every peer it is given - again when, and only when, a later reply lists one that it has neither a dial nor a connection to (unless that peer delivered bad data), those dialled least before first if there is no room for all - and announces 'stopped' when stopped; a tracker reply without peers, with unusable peers, or with a zero, negative or absurd interval neither crashes nor ends it, and failed announces are followed by further ones. A session that cannot start (its port is taken, its files cannot be read, no tracker answers the first announce) says so by an error and leaves nothing behind. Stopping, at whatever moment, makes the start call return, closes every peer connection and the listener, and leaves no activity behind.",
  ["histories", "inputs", "schedules"], "All tracker replies, all times at which the session is stopped, with any number of peers in any state.",
  "The package has no tests.",
  ["p2p/server.go", "p2p/multitracker.go"],
  [("lifecycle", "p2p/server.go: Start, Stop, every, Announce, AddPeer")],
  ["tracker requests over simulated time, dial attempts, connection closures, return of Server.Start"])

p("C31", "Peers are told exactly which pieces the session has",
  "The first message a peer receives after the handshake is a bitfield of the right size with exactly the pieces verified at that time, and every piece completed later is announced to every peer then connected by a HAVE message, even if other peers fail meanwhile; no HAVE or bitfield ever claims a piece that is not verified and servable.",
  ["histories", "schedules"], "All histories of joins, departures, completions, checksum failures and restarts with pieces on disk.",
  "The package has no tests.",
  ["p2p/server.go", "p2p/peer.go", "storage/torrent.go"],
  [("bitfield on connect", "p2p/server.go: Connect"), ("HAVE broadcast", "p2p/server.go: requestPiece")],
  ["BITFIELD and HAVE messages received by scripted peers"])

p("C32", "Parallel use is free of data races and gives the same results",
  "However many processors run it, drip never lets two goroutines touch the same memory without synchronisation when one of them writes. A session that downloads from and serves many peers at once, while its counters are read, peers are added and announces are made, one that is stopped in the middle of that, several goroutines encoding and decoding values of types not used before, several clients announcing to the tracker handler at the same time, and several goroutines announcing through the same tiers of trackers all give results that some order of the same operations one after the other would have given.",
  ["schedules"], "All parallel executions of sessions, codec calls, tracker requests and announces.",
  "The tests run almost everything from one goroutine and without the race detector; the packages with most goroutines, p2p and pex, have no tests.",
  ["p2p/server.go", "p2p/peer.go", "p2p/multitracker.go", "pex/http.go", "bencode/encode.go", "storage/storage.go", "storage/torrent.go"],
  [("session state lock", "p2p/server.go: Server.mu"), ("request and write locks of a peer", "p2p/peer.go: Peer.mu, Peer.writeMu"), ("field cache lock", "bencode/encode.go: fieldCacheMu"), ("torrent lock of the tracker handler", "pex/http.go: Torrent.mu"), ("tier order lock", "p2p/multitracker.go: Multitracker.mu")],
  ["race detector reports", "results of Marshal, Unmarshal, ServeHTTP, Multitracker calls", "pieces on disk and on the wire"])

p("C33", "A peer that delivered a bad piece is shut out, and nobody else",
  "A peer that delivers a whole piece whose bytes do not match the piece's SHA-1 is disconnected at once, and the addresses at which the client had dialled it (also one where it met that peer while it was connected over another) are not dialled again for the rest of the session, however often trackers list it; the piece is fetched again from others. Nobody else is shut out: peers that deliver right data are not disconnected, also if they share an IP address with such a peer or somebody sent bad data for the piece they are delivering, and those whose connection has ended are dialled again when a tracker lists them, so that the download completes with the right bytes.",
  ["histories", "inputs"], "All histories of connections, good and bad pieces, tracker replies and departures.",
  "The package has no tests.",
  ["p2p/server.go", "p2p/peer.go"],
  [("blocking", "p2p/server.go: Block, disconnect, AddPeer, dialPeer"), ("attribution of bad pieces", "p2p/peer.go: HandlePiece")],
  ["dials seen by the simulated network", "connections closed", "files in the end"])

p("C34", "A download survives a failing disk, failing sockets and the death of the process",
  "While file-system operations, or accepting connections, fail, a running session neither ends nor hangs, and never announces or serves a piece, or data, that is not the torrent's, and tells everyone connected of every piece it has; peers it drops because of that may come back. Once the disk works again it fetches what is missing without a restart, and what could not be assembled is assembled by the next session at the latest. A session whose process dies at any file-system operation is continued by the next one over the same directories, which starts, fetches no piece again that the first had announced to anyone, and finishes with exactly the torrent's files.",
  ["fault_sequences", "crash_points", "histories", "schedules"], "All stretches of failing operations and all crash points of sessions with any honest peers.",
  "No test makes an operation fail, interrupts one, or runs a session.",
  ["p2p/peer.go", "p2p/server.go", "storage/storage.go"],
  [("reaction to failed writes", "p2p/peer.go: HandlePiece, uploadBlock"), ("retry of pieces", "p2p/server.go: requestPieceFromPeer; storage/storage.go: ResetPiece"), ("reload", "storage/storage.go: Load")],
  ["messages received by scripted peers", "files on disk", "requests of the next session"])

p("C35", "Storage leaves no files open and no litter behind",
  "When a storage call ends, successful or not, every file it opened is closed, and every temporary file or directory it made is gone unless removing it failed too; what a process that died was still writing is removed when the torrent is next loaded. So a session of any length, on a disk that fails now and then, runs out of neither descriptors nor disk space.",
  ["histories", "fault_sequences"], "All histories of storage calls with any file-system operations failing.",
  "The tests do not look at descriptors, at the temporary directory, or at what happens when operations fail.",
  ["storage/storage.go", "storage/lazy_file_reader.go"],
  [("closing of files", "storage/storage.go: getBlockFromMultiFile, coalesce*; storage/lazy_file_reader.go"), ("removal of temporary files", "storage/storage.go: coalesce*")],
  ["files opened and closed through the file-system shim", "directory contents"])

p("C36", "Torrents that contradict themselves are refused",
  "A torrent whose description cannot be true - a piece length that is not positive, negative lengths or lengths whose sum wraps around, a number of piece hashes that does not fit, a file in the place of another or of a directory (the torrent's own included), pieces so long that no request can name their last block - is refused with an error when its storage is loaded or its session started, whatever else is on disk: the process does not crash or hang, nothing is written, no tracker or peer hears of it. Every consistent torrent is accepted, also huge ones, ones without bytes, and ones shorter than their piece length.",
  ["inputs"], "All info dictionaries.",
  "The tests use a few well-formed torrents.",
  ["storage/storage.go", "api/metainfo/metainfo.go", "p2p/server.go"],
  [("checks before loading", "storage/storage.go: Load, checkPaths, checkLengths"), ("start of a session", "p2p/server.go: Start")],
  ["errors of Load and Start", "directory contents", "tracker requests and dials"])

p("C37", "Only whole pieces on disk are taken for pieces",
  "What an earlier session left in the work directory counts as a piece only if it is a regular file of that piece's own name and of exactly its length: pieces cut short when the power failed, lengthened, or replaced by directories, and files or directories under names that merely resemble a piece's (numbers of no piece, signs, leading zeros, text before or after), neither crash the client nor pass for torrent data, in the bitfield, the count, reads or the finished files. The intact pieces are all kept, what is missing is fetched and stored anew, the torrent is assembled at once when nothing is missing and never before, and loading changes nothing else in the work directory.",
  ["histories", "inputs"], "All contents of the work directory.",
  "The tests load directories that only hold what the storage wrote.",
  ["storage/storage.go"],
  [("recognition of pieces", "storage/storage.go: Load")],
  ["bitfield, count and reads after Load", "files in the end"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
