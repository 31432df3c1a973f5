#!/usr/bin/env python3
"""Writes properties.jsonl. One place to edit; run after editing."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

KV = ["extra/kvstorage/driver.cpp", "extra/kvstorage/interface.cpp", "extra/kvstorage/kvstorage.hpp"]
p("K01", "Key-value storage is a durable map of byte strings",
  "Any sequence of set, get, has, remove, clear and size calls on a key-value storage answers exactly as an in-memory map from byte strings to byte strings would (get of a missing key gives the empty string; removing a missing key changes nothing). Closing the storage and opening the same file again, any number of times, gives a storage with exactly the entries it had. A key longer than 65535 bytes, which the file format cannot hold, is refused with an exception and changes neither the open storage nor the file.",
  ["inputs", "histories"], "every sequence of calls, keys and values (any bytes, any length up to the format's limits, empty included), every number of close/reopen cycles",
  "tests/storage samples one short fixed session with ASCII keys; it cannot reach the combinations of overwrite, remove, clear and reopen, binary or empty keys/values, or the size limits.",
  KV, [("append-only transaction log replayed on open, then rewritten compactly", "extra/kvstorage/driver.cpp Driver::Driver, handleTransaction"), ("in-memory map guarded by a mutex", "extra/kvstorage/interface.cpp")],
  [("data", "current entries", "StorageInterface::data"), ("log", "records on disk", "the db file")], ["LocalStorage public API", "the db file"])
p("K02", "Key-value storage survives a crash at any point",
  "If the process is killed between any two system calls of any operation, including the opening (and compaction) of an existing database, then opening that file again succeeds and yields exactly the contents from before or from after the interrupted operation. An operation that returned is never lost, and no entry of an earlier session is lost because a later session was killed while opening.",
  ["crash_points", "histories"], "every history of operations and every crash point between system calls of the last one, crashes during recovery included",
  "tests never kill the process; the existing test only reopens after a clean close.",
  KV, [("every transaction is written and flushed before the call returns", "Driver::handleTransaction"), ("compaction on open goes to a side file that replaces the database atomically", "Driver::Driver")],
  [("file", "bytes on disk at the crash", "the db file")], ["db file after SIGKILL", "LocalStorage API after reopen"])
p("K03", "Damaged or foreign database files are refused untouched",
  "Opening a file that is not a complete well-formed database of the supported version (wrong magic, unsupported version, unknown record type, a remove record with a value, a clear record with a key or value, a header or record cut short) throws, and leaves that file byte for byte as it was. A well-formed file is always accepted, and its records are applied in order.",
  ["inputs"], "every byte string as file contents",
  "tests never open a damaged file; the set of byte strings cannot be sampled by hand.",
  KV[:1], [("header and record validation during replay, before anything is written", "Driver::Driver")], observe=["exception or contents after open", "file bytes after a refused open"])
p("K04", "Concurrent use of one key-value storage is linearizable",
  "When several threads call set, get, has, remove, clear and size on one storage, the results are those of some sequential order of the calls that respects their real-time order. Reopening the file afterwards gives exactly the entries of the final state of that same order, and the calls are free of data races.",
  ["schedules", "histories"], "every interleaving of concurrent calls, also in the middle of the file writes of another call",
  "the tests use the storage from one thread only.",
  KV, [("one mutex around memory and log update", "extra/kvstorage/interface.cpp")], observe=["call/return history", "contents after reopen", "ThreadSanitizer reports as events"])

p("K05", "Writes the disk refuses are reported",
  "When the operating system refuses to store the data of a call (the write fails with nothing of it stored), that set, remove or clear throws and the open storage keeps showing its contents from before the call. Every call that returned normally, before or after, is still there after closing and opening the file again; the failed ones may or may not be, but nothing else is.",
  ["faults", "histories"], "every history of calls and every placement of refused writes in it, small and large values",
  "no test makes a write fail.",
  KV, [("stream state checked after the flush", "Driver::handleTransaction"), ("log before memory", "extra/kvstorage/interface.cpp")], observe=["exceptions", "contents before and after reopen"])

VF = ["extra/vfs/interface.cpp", "extra/vfs/vfs.hpp"]
p("V01", "Virtual filesystem is a case-insensitive map of files",
  "Reading, writing, removing, moving, listing and describing files in the virtual filesystem answers as a map from lower-cased names to contents would: moving carries content and timestamps to the new name, replaces what was there and removes the old name, moving onto the same name keeps the file, and moving a missing file throws and changes nothing. A file's creation time is set when it first appears and kept when it is overwritten; its modification time is that of the last write; listing and file info report name, size, created and modified consistently with read.",
  ["inputs", "histories"], "every sequence of operations, names (case variants included) and contents",
  "tests/vfs runs one fixed scenario (and is not among the reliable tests); it never overwrites by move, moves onto itself, or compares timestamps.",
  VF, [("map keyed by lower-cased name under a mutex", "extra/vfs/interface.cpp")], [("m_data", "stored files", "VFS::Interface")], ["VirtualFilesystem API"])
p("V02", "Virtual filesystem statistics match its contents",
  "After any sequence of operations, snapshot loads included, the reported number of files equals the number of listed files, and the reported total size equals the sum over the listed files of name length plus content length.",
  ["inputs", "histories"], "every sequence of write, overwrite, remove, move (also onto an existing or the same name, or from a missing one) and snapshot load",
  "no test reads the statistics after a move, a failed move, or a load.",
  VF, [("incremental accounting in write/remove/move/load", "extra/vfs/interface.cpp")], [("m_info", "totals", "VFS::Interface")], ["stats()", "listAll()"])
VS = ["extra/vfs/interface.cpp", "extra/vfs/syncqueue.cpp", "extra/vfs/format_tar.cpp", "core/compression/zlib_stream_compress.cpp", "core/compression/zlib_stream_decompress.cpp"]
p("V03", "Snapshots round-trip through .tar, .tar.gz and .tgz",
  "Saving any virtual filesystem to a .tar, .tar.gz or .tgz snapshot and loading it into an empty one reproduces every file's name, content bytes and modification time, and nothing else (a name that tar cannot hold, empty or with a zero byte, makes saving throw); loading into a filesystem with files replaces files of the same name and keeps the others. Saving to or loading from a path with any other extension throws and creates no file.",
  ["inputs"], "every set of files: empty files, sizes around multiples of 512 and around internal chunk sizes, names up to and beyond 100 bytes, any bytes in names and contents, compressible or not",
  "tests/vfs saves three small ASCII files and is flaky.",
  VS, [("tar writer and reader with LongLink, padding and checksum", "extra/vfs/format_tar.cpp"), ("gzip stream objects", "core/compression/zlib_stream_*.cpp")], observe=["snapshot file", "VirtualFilesystem API after load"])
p("V04", "Snapshots are standard tar archives, both ways",
  "A saved snapshot is a well-formed POSIX/GNU tar archive (gzip-compressed for .tar.gz/.tgz): each entry is a header block with valid checksum, size and mtime followed by exactly ceil(size/512) data blocks, long names use GNU long-name entries, and two zero blocks end the archive. A well-formed ustar archive of regular files (and directories) written by another tool, with long names stored as name prefixes or GNU long-name entries, loads with the same names, contents and modification times.",
  ["inputs"], "every set of files saved, every archive layout of regular files with short or GNU long names loaded",
  "no test inspects the archive or reads one written by another program.",
  VS[2:], [("serializeHeader / parseHeader / getPaddingSize", "extra/vfs/format_tar.cpp")], observe=["bytes of the snapshot file", "VirtualFilesystem API after load"])
p("V05", "Snapshot operations always finish and report failures",
  "However the two threads of a snapshot save or load are scheduled, the call returns with the complete result or throws; it never hangs, loses or duplicates a file, or ends the process. A missing or unreadable file, an unwritable path or full disk, an archive that is cut short, has a header that does not match its checksum, or is damaged inside its gzip stream makes the call throw, and the filesystem object stays usable and keeps its other files.",
  ["schedules", "fault_sequences"], "every interleaving of producer and consumer, every position of a truncation or corruption, every failing path",
  "the result depends on the relative speed of two threads (this is why tests/vfs is flaky) and the tests inject no fault.",
  VS[:3], [("SyncQueue between the caller and the archive thread", "extra/vfs/syncqueue.cpp")], [("queue", "files in flight", "SyncQueue"), ("done", "producer finished", "SyncQueue")], ["return or exception of saveSnapshot/loadSnapshot", "contents afterwards"])

HT = ["core/http/transport_v1.cpp", "core/server/worker.cpp", "core/network/tcp/connection.cpp"]
p("H01", "Request framing does not depend on network segmentation",
  "For every sequence of well-formed requests (bodies delimited by content-length) sent on one connection, the handler receives exactly those requests, complete and in order, each with exactly its own body bytes, no matter how the byte stream is cut into segments or whether several requests arrive in one segment. A request whose last byte has arrived is handled without waiting for further bytes.",
  ["inputs", "schedules"], "every split of the byte stream into segments, including inside the header terminator and inside the body, and every pipelining depth",
  "tests send each request in one segment on a fresh connection.",
  HT, [("buffering reader that searches the header end and then collects the body", "TransportContextV1::awaitNext")], [("m_readbuff", "received and not yet consumed bytes", "TransportContextV1")], ["handler invocations", "bytes sent"])
p("H02", "Every request gets exactly one well-framed response, in order",
  "Each request accepted on a connection gets exactly one response, in request order, with the handler's status, headers and body; its content-length equals the number of body bytes that follow, and it carries a date, server, request id and connection header. Responses to HEAD requests and responses with status 204 or 304 have headers only and no body bytes, so the next response on the connection starts right after its headers.",
  ["inputs", "histories"], "every sequence of requests and handler responses (status codes, headers, repeated headers, empty, binary or large bodies)",
  "tests look at one response at a time and compare only bodies.",
  HT[:2], [("response serialisation", "TransportContextV1::respond")], observe=["bytes sent on the connection"])
p("H03", "Malformed or oversized requests never reach the handler",
  "A request with an invalid start line, an unknown method, a header line without colon or with an empty name, an unusable content-length, or a size above the configured maximum never reaches the handler, and nothing after it on that connection does. Header errors are answered with 400, an oversized header or declared body with 413, a transfer-encoding with 501, and in all these cases the connection is closed; requests within the limit are never refused for their size, whatever else is already buffered behind them.",
  ["inputs"], "every malformed header shape, every position of the malformed request in a pipelined sequence, every size around the limit and every segmentation",
  "tests contain no malformed and no oversized request.",
  HT[:2], [("ProtocolError raised by the parser, answered by the connection worker", "transport_v1.cpp, worker.cpp handleProtocolError")], observe=["handler invocations", "response status", "connection close"])
p("H04", "Connection persistence follows the negotiated contract",
  "A connection stays open for further requests exactly when the request allows it (no connection header or one that asks for keep-alive; not close) and the server options allow reuse, unless the handler's response says otherwise; every response announces the outcome in its connection header (keep-alive or close). After a response that announces close the server closes the connection and handles nothing more on it; after keep-alive it serves the next request.",
  ["inputs", "histories", "configurations"], "every sequence of connection headers (any letter case), handler connection headers and reuse settings",
  "tests use one request per connection and never look at the connection header.",
  HT[:2], [("keep-alive state machine", "TransportContextV1 m_keepalive")], [("m_keepalive", "Unknown/KeepAlive/Close", "TransportContextV1")], ["connection header", "open or closed after each response"])
p("H05", "Content coding is negotiated per request and decodes to the body",
  "A response body is compressed only when compression is enabled, the response content type is textual and the request that it answers lists the coding in accept-encoding, preferring br over gzip over deflate; then the content-encoding header names the coding and decoding the body gives the handler's bytes. Otherwise the handler's bytes are sent unchanged without a content-encoding of the server's own; a handler that sets content-encoding itself has its body sent as is.",
  ["inputs", "histories", "configurations"], "every sequence of accept-encoding headers on one connection, content types, bodies and settings",
  "tests request at most one coding per connection; a coding remembered from an earlier request is invisible to them.",
  ["core/http/transport_v1.cpp", "core/compression/zlib_oneshot.cpp", "core/compression/brotli.cpp"], [("negotiation and encoding", "TransportContextV1::awaitNext/respond")], [("m_compress", "negotiated coding", "TransportContextV1")], ["response headers and body"])
p("H06", "Handler failures are isolated to one response",
  "A handler that throws anything, or returns no response, yields a 500 response for that request in the configured error format (plain, HTML or JSON), and the connection and server go on serving later requests as if nothing had happened.",
  ["inputs", "histories", "configurations"], "every kind of handler outcome at every position in a sequence of requests, and every error page format",
  "tests do not have a failing handler.",
  ["core/server/worker.cpp", "core/server/errorpage.cpp"], [("catch blocks around the handler call", "connectionWorker")], observe=["responses", "later requests"])
p("H07", "Clients cannot bring the server down",
  "Whatever a client sends, and at whatever moment it disconnects, resets, half-closes or stops reading, the server process neither terminates nor touches memory outside its buffers, and requests on other connections are still served.",
  ["inputs", "fault_sequences"], "every byte string on the connection, every disconnect point relative to reads and writes of the server",
  "tests are well-behaved clients that read every response.",
  ["core/network/tcp/connection.cpp", "core/server/worker.cpp", "core/http/transport_v1.cpp"], [("errors confined to the connection worker", "connectionWorker catch blocks")], observe=["process alive", "sanitizer reports", "other connections"])
p("H08", "Requests are translated faithfully",
  "The handler sees the request as sent: method; path up to the first '?' or '#'; query parameters; every header with a non-empty value, names case-insensitive, values trimmed and repeated headers kept in order; host, hostname and port from the Host header (a default when absent); basic-auth user and password (the password being everything after the first colon); and the body bytes.",
  ["inputs"], "every request target, header set and authorization value",
  "tests check a few hand-written requests.",
  ["core/http/transport_v1.cpp", "core/http/auth.cpp", "core/http/urlsearchparams.cpp"], [("start line, header, url and auth parsing", "TransportContextV1::awaitNext")], observe=["HTTP::Request passed to the handler"])

WS = ["core/websocket/transport.cpp", "core/websocket/websocket.cpp"]
p("W01", "WebSocket handshake accepts exactly valid upgrades",
  "An upgrade attempt succeeds exactly for a GET request whose Upgrade header is websocket (any case), which carries a key, and after whose headers no extra bytes were already received; the answer is then 101 with Upgrade: websocket, Connection: Upgrade and the Sec-WebSocket-Accept value of RFC 6455 for that key. Otherwise the client gets 405 (method) or 400 (headers, extra data) with connection: close, and no websocket is created.",
  ["inputs"], "every method, Upgrade value, key and amount of early data",
  "tests perform one valid handshake only.",
  WS + ["core/server/worker.cpp", "core/crypto/sha1.cpp", "core/encoding/base64.cpp"], [("WebsocketContext constructor", "core/websocket/websocket.cpp")], observe=["response to the upgrade request"])
p("W02", "WebSocket messages are delivered exactly, in order",
  "Every data frame a client sends is delivered to the application exactly once, in order, with its unmasked payload bytes, its text/binary type (continuation frames take the type of the message they continue) and a partial flag that is set exactly on the frames that do not end their message, for all payload lengths up to the limit and however the byte stream is segmented. Control frames between fragments do not disturb the message, and a frame that has completely arrived is delivered without waiting for more bytes.",
  ["inputs", "schedules"], "every sequence of frames, fragmentations, masks, payload lengths (7, 16 and 64 bit encodings) and every segmentation of the stream",
  "tests/websocket needs an interactive client; nothing checks segmentation or fragments.",
  WS, [("frame reader", "WebsocketContext::asyncWorker"), ("parseFrameHeader", "core/websocket/transport.cpp")], [("downloadBuff", "received bytes", "asyncWorker"), ("multipartCtx", "open fragmented message", "asyncWorker")], ["awaitMessage/nextMessage"])
p("W03", "WebSocket control frames and protocol violations are handled",
  "A ping is answered by a pong with the same payload, and a close by a close frame with status 1000 and the end of the connection. An unmasked client frame, an unknown opcode or a continuation frame without a message to continue closes the connection with status 1002, a frame longer than the configured maximum with 1009; nothing of such a frame or after it is delivered, messages before it still are, and no input makes the server read outside the received bytes.",
  ["inputs"], "every frame sequence with a violation at any position, every segmentation",
  "no test sends a control frame or an invalid frame.",
  WS, [("opcode, mask and size checks", "WebsocketContext::asyncWorker")], observe=["frames sent by the server", "connection end", "messages delivered"])
p("W04", "Outgoing WebSocket frames are well-formed and never interleaved",
  "The bytes a server sends on a websocket connection are always a sequence of complete unmasked frames with minimal length encoding: each message sent appears exactly once with its payload and type, fragments of a partial message continue with continuation frames until the final one, and automatic pings, pongs and close frames appear only between frames, never inside one, whatever the timing of the threads. After a close frame nothing more is sent.",
  ["schedules", "inputs"], "every interleaving of application sends with the reader's automatic replies, every payload length",
  "tests echo single messages without pings; the interleaving of two threads cannot be sampled.",
  WS + ["core/network/tcp/connection.cpp"], [("one write per frame under the connection's write lock", "Connection::write")], observe=["bytes sent on the connection"])
p("W05", "WebSocket sessions always end cleanly",
  "An open websocket pings an idle client every few seconds and ends the session when a client leaves several pings unanswered, while a client that answers pings stays connected; when the client disconnects, waiting for messages returns the remaining messages and then reports the end. Destroying the session object or shutting the server down ends waiting promptly and sends a close frame (going away) to a connected client.",
  ["schedules", "fault_sequences"], "every moment of disconnect, silence, shutdown or destruction relative to the reader thread",
  "tests never let a connection go idle, disconnect or shut down.",
  WS + ["core/network/tcp/connection.cpp"], [("receive timeout polling loop with ping bookkeeping", "WebsocketContext::asyncWorker"), ("awaitMessage", "core/websocket/websocket.cpp")], [("m_stopped", "session ended", "WebsocketContext")], ["frames sent", "return of awaitMessage", "connection end"])

p("E01", "Event streams deliver every event intact",
  "An event stream starts with a 200 text/event-stream response without content-length; each pushed event arrives exactly once and in order, and an EventSource client decodes the same event name, id, retry and data that were pushed, also when the data has line breaks or is empty. Pushing to a disconnected listener reports it, closing sends a final close event and ends the connection, and nothing is sent after it.",
  ["inputs", "fault_sequences"], "every sequence of events with any field combination and data, and every disconnect point",
  "the example only is exercised by hand; tests do not parse the stream.",
  ["core/sse/writer.cpp", "core/server/worker.cpp"], [("Writer::push/close", "core/sse/writer.cpp")], observe=["bytes sent", "exceptions from push", "connected()"])

SV = ["core/server/instance.cpp", "core/server/worker.cpp", "core/network/tcp/listener.cpp"]
p("L01", "Server starts, stops and restarts cleanly",
  "In thread-list mode, shutting down or destroying a server instance at any moment stops it from accepting, ends every connection after at most its current request, and returns once all workers are done, without hanging, crashing or throwing because of the shutdown; shutting down twice is harmless. Afterwards the port is free, a new instance can serve on it, and no handler runs after destruction has returned.",
  ["schedules", "histories"], "every interleaving of shutdown with accepting, connecting, request handling and finishing workers",
  "tests start a server once and exit the process.",
  SV, [("terminate/awaitFinished with worker list", "core/server/instance.cpp")], [("m_connections", "live workers", "LambdaInstance"), ("m_terminated", "shutdown requested", "LambdaInstance")], ["return of shutdown/awaitFinished/destructor", "handler invocations", "port state"])
p("L02", "The connection limit is enforced",
  "In thread-list mode a server never serves more than the configured number of connections at the same time: while that many are being served a further connection is closed without reaching the handler, and it never refuses one when fewer are being served. Once served connections end, new ones are accepted again; limits below the documented minimum of 50 other than 0 (unlimited) are rejected at construction.",
  ["histories", "configurations"], "every history of connects and disconnects around the limit",
  "no test opens more than a few connections.",
  SV[:1], [("m_connections_count against maxConnections and garbage collection of finished workers", "core/server/instance.cpp")], [("m_connections_count", "workers not yet collected", "LambdaInstance")], ["accepted or closed connections"])
p("L03", "Connections are isolated and released",
  "Requests on different connections are served concurrently and independently: each client gets the responses to its own requests only, and a slow, stuck or failing connection does not delay the others. When a connection ends for whatever reason (close, error, timeout, failed or finished event stream or websocket) the server closes its socket promptly.",
  ["schedules", "fault_sequences"], "every interleaving of several connections, every way a connection can end",
  "tests use one connection at a time and never look at the server's descriptors.",
  SV, [("one worker thread and transport per connection", "core/server/instance.cpp")], observe=["responses per connection", "EOF seen by the client", "open descriptors"])

p("S01", "The static server never leaves its root and never fails",
  "Whatever path a client asks for, the static file server answers with a response (200 or 404) without throwing or terminating, and a 200 carries the bytes of a regular file below the configured root directory, never of one outside of it.",
  ["inputs"], "every path string: dot segments, backslashes, repeated slashes, control and non-ASCII bytes, very long components",
  "tests do not cover the static server's path handling.",
  ["extra/staticserver/staticserver.cpp"], [("flattenPathName and resolvePath", "extra/staticserver/staticserver.cpp")], observe=["StaticServer::serve"])
p("S02", "The static server finds the right file and type",
  "A path that names a regular file below the root gets its bytes with the content type of its extension; a path that names a directory (or extensionless missing name) gets its index.html or else index.htm; anything else is 404. Dot segments and duplicate slashes in a path resolve as they would in a normalised path.",
  ["inputs"], "every tree of files and every path into it",
  "tests do not cover the static server.",
  ["extra/staticserver/staticserver.cpp", "core/polyfill/mimetype.cpp"], [("resolvePath, getExtMimetype", "extra/staticserver/staticserver.cpp")], observe=["StaticServer::serve"])
p("C01", "Header collections are case-insensitive ordered multimaps",
  "A header collection built and modified by any sequence of operations answers get, has, getAll, entries and size as a multimap with case-insensitive names would: set replaces all values, append adds after the existing ones, del removes all, get gives the first value, entries lists every value under its name, size is the number of names; copies are independent and equal.",
  ["inputs", "histories"], "every sequence of operations with any names and values",
  "tests check a few fixed sequences.",
  ["core/http/kvcontainer.cpp", "core/polyfill/strings.cpp"], [("map keyed by lower-cased name", "core/http/kvcontainer.cpp")], observe=["Headers API"])
p("C02", "Cookies are read and set as told",
  "Every name=value pair of a Cookie header is readable (names case-insensitive) with its value, and reading never depends on the other pairs. Every cookie set or deleted by a handler appears exactly once among the Set-Cookie values with its last value and attributes, a deletion being an expiry in the past in valid cookie-date format; this also holds for copies and moved or assigned collections, and a response carries them all.",
  ["inputs", "histories"], "every cookie string and every sequence of set/del/copy operations",
  "tests parse one fixed string.",
  ["core/http/cookies.cpp", "core/http/response.cpp"], [("m_data and m_set_queue", "core/http/cookies.cpp")], observe=["Cookies API", "Set-Cookie headers"])
p("U01", "URLs and query strings parse into their parts and back",
  "Parsing a URL splits it into protocol, credentials, host, hostname, port, path, query parameters and fragment as its grammar says, and a URL without host or protocol (that is not an absolute path) is rejected with an exception. Serialising a parsed URL and parsing it again gives the same parts; a query parameter of the URL is readable by its name in any letter case.",
  ["inputs"], "every URL string of the supported grammar and every malformed one",
  "tests parse a handful of URLs.",
  ["core/http/url.cpp", "core/http/urlsearchparams.cpp"], [("URL::parse and URL::href", "core/http/url.cpp")], observe=["URL fields", "href()"])
p("J01", "JSON values survive stringify and parse",
  "Serialising any JSON value built from null, booleans, 32-bit integers, strings, arrays and objects yields text that a standard JSON parser reads as the same value, and the library's own parser reads back as an equal value; it also reads any other standard spelling (white space, escapes) of such values. Copying or assigning values gives equal, independent values.",
  ["inputs"], "every value, including empty containers, nested ones, negative numbers and strings with quotes, backslashes, brackets, commas and control characters",
  "tests use a few fixed documents.",
  ["core/json/parse.cpp", "core/json/stringify.cpp", "core/json/property.cpp"], [("stringify, parse, Property", "core/json")], observe=["JSON::stringify", "JSON::parse"])
p("T01", "Template rendering substitutes exactly the placeholders",
  "Rendering replaces every {{ name }} placeholder by the given value (by nothing when it is unknown), leaves every other byte of the template as it is, and inserts values literally: text that comes from a value is never itself treated as a placeholder.",
  ["inputs"], "every template text and every assignment of values, including values and templates with braces",
  "tests render one template.",
  ["core/html/renderer.cpp"], [("renderTemplate", "core/html/renderer.cpp")], observe=["HTML::renderTemplate"])
p("G01", "Compression codecs are lossless under any chunking",
  "Compressing any bytes with gzip, deflate or brotli at any quality and decompressing them gives back the same bytes; the stream compressor and decompressor give the same result however input is cut into chunks and whatever flush points are used, their output is standard gzip, and a truncated stream (or a corrupted gzip or zlib stream, whose check sums can tell) is reported by an exception or as unfinished, never as a complete result; objects moved or assigned over release what they held.",
  ["inputs", "histories"], "every byte string, chunking of compressor and decompressor input, flush sequence and quality; sizes around the internal chunk sizes",
  "tests compress a few short strings in one piece.",
  ["core/compression/zlib_oneshot.cpp", "core/compression/zlib_stream_compress.cpp", "core/compression/zlib_stream_decompress.cpp", "core/compression/brotli.cpp"], [("zlib/brotli loops over output chunks", "core/compression")], observe=["compressed bytes", "decompressed bytes", "isDone"])
p("X01", "Text codecs round-trip and follow their standards",
  "Base64, hex and percent encoding of any bytes follow RFC 4648 and percent-encoding rules, decoding an encoding gives the bytes back, and SHA-1 equals the standard digest whatever the chunking of updates.",
  ["inputs"], "every byte string and every chunking",
  "tests check a few fixed vectors.",
  ["core/encoding/base64.cpp", "core/encoding/hex.cpp", "core/encoding/url.cpp", "core/crypto/sha1.cpp"], [("encode/decode tables and SHA-1 block buffering", "core/encoding, core/crypto")], observe=["Encoding and Crypto API"])
p("M01", "Error pages show the message as data",
  "An error or service page rendered for any status and message is well-formed in the configured format and carries that message as data: a JSON error page parses as JSON with exactly that message, an HTML page shows it as text (it cannot introduce markup), a plain page contains it literally; the status line, content type and content length match.",
  ["inputs", "configurations"], "every message text (exception messages and request paths are attacker-influenced) and every format",
  "tests never render an error page with special characters.",
  ["core/server/errorpage.cpp", "extra/staticserver/staticserver.cpp", "core/json/stringify.cpp", "core/html/renderer.cpp"], [("renderErrorPage", "core/server/errorpage.cpp")], observe=["response to a failed request"])

p("N01", "TCP connections deliver bytes in order and end cleanly",
  "Whatever the peer sends through a Network::TCP::Connection is handed out by read() in order, none lost or doubled, in pieces of at most the size asked for, and whatever write() accepts without an exception arrives in order and whole, also from several threads at once, however the system splits, interrupts or delays transfers. A read returns nothing only when its timeout has passed (which ends the connection only if closeOnTimeout is set), when the peer has closed, or when the connection was reset and throwOnDisconnect is off; other failures are exceptions. end() may come from any thread at any time: pending calls return, the peer sees the end, later calls throw, and no call uses a descriptor that was already given back. Moving a connection hands over everything it had (flags and info) and ends the one it replaces; no descriptor is leaked or closed twice.",
  ["histories", "schedules", "faults"], "every sequence of calls and peer actions, every split of transfers, every interleaving of readers, writers and enders",
  "tests exchange a few short messages over one connection.",
  ["core/network/tcp/connection.cpp"], [("read/write/end, the locks around the handle, move operations", "core/network/tcp/connection.cpp")], observe=["Connection API", "bytes at the peer", "open descriptors"])
p("N02", "Listening sockets hand out every client exactly once",
  "Every client that connects to a listening ListenSocket is handed out by acceptConnection() exactly once, in order, as a working connection that tells its address, the configured timeouts (which it applies) and the host port, whatever transient errors (interruptions, aborted clients, exhausted descriptors) accept() reports and however many threads accept. stop() from any thread makes pending and later acceptConnection() calls return nothing, connecting is refused from then on, and no accept takes a client of another socket. A port that is already listened on is reported by an exception. Moving a socket hands over what it had and closes the one it replaces; no descriptor is leaked.",
  ["histories", "schedules", "faults"], "every sequence of open, connect, accept, stop and move on several sockets and ports, with accept errors at any point and calls from several threads",
  "tests open one socket and accept one client at a time.",
  ["core/network/tcp/listener.cpp"], [("acceptConnection loop, stop, move operations", "core/network/tcp/listener.cpp")], observe=["ListenSocket API", "clients' connects", "open descriptors"])

p("V06", "Virtual filesystem is linearizable",
  "Whatever threads do with one virtual filesystem at the same time, every call (write, remove, move, read, fileInfo, listAll) behaves as if it had happened alone at one moment between its start and its end: nobody sees half of a move or of a file, no update is lost. A snapshot that is saved meanwhile holds exactly the files of one such moment, and each file of a snapshot that is loaded meanwhile appears at once and whole. When all is quiet, statistics agree with the files. There are no data races among these calls.",
  ["schedules", "histories"], "every interleaving of any number of threads with any calls",
  "tests use it from one thread; that a snapshot or a move is never seen half done depends on the interleaving.",
  ["extra/vfs/interface.cpp", "extra/vfs/syncqueue.cpp"], [("Interface methods and m_mtx", "extra/vfs/interface.cpp"), ("SyncQueue", "extra/vfs/syncqueue.cpp")], observe=["results of calls", "saved archives", "stats when quiet"])
p("Z01", "String helpers change what they say and nothing else",
  "For all texts (any bytes): changing letter case changes exactly the ASCII letters (title case: capital at the start and after each space or hyphen, small otherwise) and no other byte; trim removes exactly the blanks (space, tab, CR, LF) at both ends; split gives the pieces between the separator's non-overlapping occurrences, left to right, a last empty piece left out (an empty text has no pieces, an empty separator gives the whole); join puts the separator between the pieces; replace changes the first and replaceAll every non-overlapping occurrence, left to right, and never what it inserted; includes, startsWith and endsWith answer by definition. In-place and copying forms agree, and every call ends.",
  ["inputs"], "every text, separator, search text and replacement",
  "there are no tests for most of them; they are what request, header and cookie parsing rests on, and the inputs are all byte strings.",
  ["core/polyfill/strings.cpp"], [("Strings::*", "core/polyfill/strings.cpp")], observe=["Strings API"])
p("Z02", "HTTP vocabulary: methods, statuses, credentials, bodies, media types",
  "HTTP methods are recognised in any letter case and with blanks around them, unknown ones are refused with an exception, and a method shows its canonical name; a known status code gets its standard reason phrase, an unknown one is refused unless a text is given, and the type of a status goes by its hundreds. Basic credentials are read as RFC 7617 says (the password may contain colons); a header that is not usable gives none. Bodies, requests and responses have exactly the status, headers and bytes they were built from; setCookies adds one header per named cookie. The media type of a file name goes by what follows its last dot, application/octet-stream (and bin the other way) when it is unknown.",
  ["inputs"], "every method text, status code, authorization header, body, cookie list and file name",
  "tests use a few well known values; unusual spellings and boundaries are never reached.",
  ["core/http/method.cpp", "core/http/status.cpp", "core/http/auth.cpp", "core/http/body.cpp", "core/http/response.cpp", "core/http/request.cpp", "core/polyfill/mimetype.cpp"],
  [("Method, Status, Auth::parseBasicAuth, BodyBuffer, Response, Content", "core/http, core/polyfill/mimetype.cpp")], observe=["the classes' API"])
p("Z03", "Dates, identifiers and byte order",
  "A Date shows its instant in the Gregorian calendar and UTC, whatever the machine's time zone: the fields as in struct tm (years from 1900, months from 0), the HTTP date of RFC 9110 and the other text forms, for every instant of the years 1900 to 9999. The text of a ShortID is eight lower-case hexadecimal digits in one-to-one correspondence with its number, kept by copies, moves and assignments, and fresh identifiers differ, also between threads. netwnormx gives a number whose bytes in memory are big-endian and storenormx one whose bytes are little-endian; each is its own inverse.",
  ["inputs", "histories", "schedules"], "every instant, every identifier and sequence of copies, every integer of the six types, several threads",
  "tests show one date; leap years, centuries, time zones, stale copies and colliding identifiers are out of reach.",
  ["core/polyfill/date.cpp", "core/crypto/uid.cpp", "core/utils/byteswap.cpp"], [("Date", "core/polyfill/date.cpp"), ("ShortID", "core/crypto/uid.cpp"), ("netwnormx, storenormx", "core/utils")], observe=["Date, ShortID and Bits API"])
p("O01", "Log lines are whole, in order and say what was given",
  "syncout.log writes to standard output and syncout.error to standard error, one line per call: the items in order, numbers in decimal, truth values as words, with one space between them and those that are empty left out; a call without anything to say writes nothing. However many threads write at once, lines never mix, none is lost or doubled, and the lines of a thread keep their order within each stream.",
  ["inputs", "schedules"], "every list of items, every interleaving of any number of threads, buffered or not",
  "tests print from one thread and nobody looks at it.",
  ["core/utils/syncout.cpp"], [("WrapperImpl and its write mutex", "core/utils/syncout.cpp")], observe=["bytes on stdout and stderr"])
p("O02", "The server log tells what happened, once, and cannot be forged",
  "With request logging on, every request that got an answer has exactly one line on stdout with the request ID and (as the handler saw them) client address, method and path, and the status that was sent, upgrades one with the protocol instead; a handler that failed, also after an upgrade, and a refused upgrade it did not handle itself have one line on stderr with the same ID, and a connection that was given up because of a protocol or network error one 'terminated' line. With transport events on, every connection also has one 'created' line with the client's address and port and one 'closed' line unless it was terminated, and lines carry the connection's ID in place of the address. Lines of a connection are in the order of what happened. What is switched off in LogOptions is not written, and nothing a client sends adds lines or control characters to the log.",
  ["inputs", "histories", "schedules"], "every combination of options, every history of concurrent connections, every byte a client can put into a request",
  "tests never read the log; forging it takes bytes no ordinary client sends.",
  ["core/server/worker.cpp", "core/server/instance.cpp"], [("log calls of connectionWorker", "core/server/worker.cpp"), ("start and stop messages", "core/server/instance.cpp")], observe=["stdout and stderr of a server", "what clients and handlers saw"])
p("O03", "Every response can be traced to its request and is dated",
  "Whatever a server sends back (a handler's response, an error page, the start of an upgrade, the answer to something that was no valid request) has one x-request-id header, made of the connection's ID and the request's ID with a hyphen in between, whatever the client or the handler put under that name, and one Date header that says when it was sent. A handler is told exactly those two IDs and the address and port of its own client. All requests of a connection have the same connection ID and each has a request ID of its own, also when several were sent ahead; connections and requests never share IDs, whatever is served at the same time.",
  ["inputs", "histories", "schedules"], "every history of requests on every number of concurrent connections",
  "tests send one request at a time and never look at the header; shared or stale IDs need keep-alive, pipelining or concurrency.",
  ["core/http/transport_v1.cpp", "core/server/worker.cpp", "core/crypto/uid.cpp"], [("x-request-id and date headers of respond", "core/http/transport_v1.cpp"), ("RequestContext of connectionWorker", "core/server/worker.cpp"), ("ShortID", "core/crypto/uid.cpp")], observe=["response headers", "what handlers are told"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
