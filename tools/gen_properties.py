#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state':[dict(name=n, meaning=m, where=w) for n,m,w in state]} if state else {}),
                     observe_at=observe or [], hook_needed=hook)))

T1='core/http/transport_v1.cpp'; WK='core/server/worker.cpp'; IN='core/server/instance.cpp'
CN='core/network/tcp/connection.cpp'; LS='core/network/tcp/listener.cpp'

prop('C01','HTTP requests reach the handler exactly as sent, however they are segmented',
 'Whatever way TCP cuts the byte stream of well-formed HTTP/1.1 requests into segments, and however many requests are pipelined back to back on one connection, the handler is called once per request, in order, with exactly the method, path, query, headers, host, credentials and body bytes that were sent. No request is lost, merged, reordered, truncated or left waiting for bytes that have already arrived.',
 ['inputs','schedules'],'every segmentation (up to a bounded number of cut points, plus byte-by-byte) of every request sequence over a boundary-covering alphabet of request shapes',
 'No test opens an HTTP connection at all; a manual run only ever sees one segment per request.',
 [T1,WK],[('awaitNext() incremental header search, body read, leftover buffer', T1)],
 [('m_readbuff','bytes received but not yet consumed by a request',T1)],['request object given to the handler callback'])
prop('C02','Each request gets exactly one response, in order, carrying the handler\'s reply',
 'For every request accepted on a connection the client receives exactly one well-formed HTTP/1.1 response, in request order, with the status, headers (all values of repeated ones) and body the handler returned and a content-length equal to the bytes that follow the header. A response to HEAD carries the same headers but no body bytes, and a 1xx, 204 or 304 response has no body. Line breaks or null characters in a handler\'s header or status text never end a header line: they cannot add headers, content or another response.',
 ['inputs','histories'],'every sequence of requests and handler replies over a boundary-covering alphabet (methods, statuses, repeated headers, body sizes around the internal buffer sizes)',
 'No existing test parses a response; framing errors only show on the second response of a connection.',
 [T1,WK],[('respond() serialisation', T1),('connectionWorker loop', WK)],None,['bytes written to the client socket'])
prop('C03','Response compression is negotiated per request and is lossless',
 'A response is content-encoded only with a coding which that very request listed as acceptable, only when compression is enabled and the handler\'s content type is textual (or unspecified) and the handler has not encoded it already, and decoding it gives back exactly the handler\'s body; otherwise the body is sent as is without a content-encoding added. What an earlier request on the connection accepted has no influence.',
 ['inputs','histories','configurations'],'every sequence of up to 3 requests over an alphabet of Accept-Encoding values x response content types x bodies x the compression option',
 'No test negotiates compression; carry-over between requests needs request histories.',
 [T1],[('accept-encoding parsing and m_compress', T1),('respond() encoding selection', T1)],
 [('m_compress','coding negotiated for the request being answered',T1)],['decoded response bytes'])
prop('C04','The Connection header the server sends is the truth',
 'A response (other than an event stream, which ends with its connection) that says "connection: keep-alive" leaves the connection open and the next request on it is served; a response that says "connection: close" is the last one and the server then closes the socket. The server honours a client\'s close request (in any letter case), honours a close set by the handler, and never keeps a connection alive when connection reuse is disabled.',
 ['histories','configurations'],'every sequence of up to 3 requests over an alphabet of Connection header values, handler-set Connection headers and the reuse option',
 'No test looks at the second request of a connection.',
 [T1,WK],[('m_keepalive state machine', T1)],[('m_keepalive','negotiated persistence',T1)],['bytes and FIN seen by the client'])
prop('C05','Malformed or oversized HTTP input is refused without harm',
 'For any byte sequence a client may send, the server neither crashes, hangs, reads out of bounds nor leaks a connection; input that is not a well-formed request (bare line breaks and nulls in the header, folded lines and whitespace around header names included), a body longer than the configured maximum, or a body framing the server does not support never reaches the handler, the connection is closed, and any answer sent is a complete well-formed error response (413 when the limit is exceeded). The process and other connections keep working.',
 ['inputs'],'every single-site corruption (deletion, duplication, truncation, byte substitution over a hostile alphabet) of a set of seed requests, every short header over a token alphabet, and all length values around the limits, under several segmentations',
 'Tests never send a malformed byte.',
 [T1,WK,'core/http/auth.cpp','core/http/method.cpp'],[('ProtocolError / exception funnel', WK),('size checks', T1)],None,['handler calls, bytes sent, socket state'])
prop('C06','A failing handler always yields one complete error response',
 'If a handler throws anything, returns no response, or a protocol upgrade it attempted is refused, the client receives exactly one complete, correctly framed error response (500, or the refusal\'s own 4xx status) in the configured error format, containing the error message intact, and the server goes on serving. A handler that itself recovers from a refused upgrade has its own response delivered.',
 ['inputs','histories','configurations'],'every handler outcome (std exceptions, foreign exceptions, no response, refused or caught websocket upgrades) x error format x position in a request sequence x message content',
 'No test has a failing handler; the example that does is never checked.',
 [WK,'core/server/errorpage.cpp'],[('handleFunctionError/handleUpgradeError', WK),('renderErrorPage', 'core/server/errorpage.cpp')],
 [('handlerMode','whether the connection still speaks HTTP',WK)],['bytes written to the client socket'])
prop('C07','Network faults never corrupt a response or take the server down',
 'Whatever failures the socket layer injects (partial or interrupted sends and receives, resets, timeouts, peer gone while sending), the bytes the client received form a prefix of the correct response stream, complete if no fatal error occurred, and nothing is sent after a failed write on that connection. Every accepted socket is closed exactly once and never used afterwards, the process is not killed by a signal, and other connections are still served.',
 ['fault_sequences'],'every single and every pair of injected faults at every socket call of several request/response exchanges',
 'Loopback tests never see a short write, EINTR or reset.',
 [CN,T1,WK],[('Connection::read/write/end', CN)],[('hSocket','descriptor ownership',CN)],['socket calls made by the server'])
prop('C08','Starting, stopping and destroying a server is safe under every schedule',
 'Under every interleaving of client connections, request handling, shutdown, waiting and destruction, shutdown and destruction return once running handlers finish and idle connections reach their receive timeout, waiting returns without an error, no new connection is served after shutdown returned (an existing one answers at most one more request), an event-stream or websocket handler sees its connection end so that it can finish, every thread the instance started has ended when its destructor returns (with thread tracking on), and there is no data race, use after free, double close, deadlock or exception escaping. A transient failure to accept one connection does not stop the service.',
 ['schedules','fault_sequences'],'all interleavings up to a preemption bound of small client/shutdown/await/destroy scenarios, with and without accept failures',
 'The instance_restart test runs one schedule, with no clients.',
 [IN,LS,CN,WK],[('terminate()/awaitFinished()/destructor', IN),('ListenSocket::stop', LS)],
 [('m_terminated, shutdownFlag, finished, m_connections','cross-thread lifecycle state',IN)],['thread exits, socket calls, memory accesses'])
prop('C09','The connection limit bounds concurrency and never wedges the service',
 'With thread tracking on, at most the configured maximum number of connections are served at the same time (a maximum of zero sets no limit); connections over the limit are closed without being served; once served connections finish, new ones are accepted and served again, for every order in which connections open and finish.',
 ['histories','schedules'],'every sequence of connect / finish / over-limit connect / reconnect events around the limit',
 'No test opens more than zero connections.',
 [IN],[('m_connections_count and the joinlist', IN)],[('m_connections_count','live tracked connections',IN)],['handler concurrency observed, sockets closed'])
prop('C10','WebSocket: handshake and every incoming message is delivered exactly',
 'A valid upgrade request is answered 101 with the RFC 6455 accept value and an invalid one with a 4xx and no upgrade. Every message a conforming client then sends - any payload length encoding, any masking key, fragmented or not, with control frames in between, and however TCP segments the bytes - is delivered to the handler in order with exact payload and type, one delivery per data frame, flagged partial for every fragment but the last; pings are answered with a pong carrying the same payload.',
 ['inputs','schedules'],'all frame sequences up to a length over an alphabet of frames at the length-encoding and buffer boundaries, under every segmentation with a bounded number of cuts',
 'There is no websocket test.',
 ['core/websocket/transport.cpp','core/websocket/websocket.cpp'],[('parseFrameHeader/asyncWorker', 'core/websocket/transport.cpp'),('WebsocketContext ctor', 'core/websocket/websocket.cpp')],
 [('downloadBuff, multipartCtx','bytes and fragmented message being assembled','core/websocket/transport.cpp')],['messages returned to the handler, bytes sent'])
prop('C11','WebSocket: what the server sends is a valid frame stream',
 'Everything the server writes after the handshake is a sequence of complete, unmasked, well-formed frames with minimal length encoding that decode to exactly the messages the handler sent, in order; closing sends exactly one close frame with the given reason code and nothing after it, and then the connection is closed. Sending after the connection was closed reports an error to the caller instead of crashing or blocking.',
 ['inputs','histories'],'all sequences of send / send-partial / close / handler-exit operations x message sizes at the length-encoding boundaries x peer behaviours',
 'There is no websocket test.',
 ['core/websocket/transport.cpp','core/websocket/websocket.cpp'],[('serializeMessage/close/destructor', 'core/websocket/websocket.cpp')],None,['bytes sent to the client'])
prop('C12','WebSocket: bad frames, silent or vanished peers end the session cleanly',
 'Any protocol violation (unmasked data, unknown opcode, oversized frame, misplaced continuation, malformed control frame), an EOF or reset at any byte, or a peer that stops answering pings for the keep-alive window leads to the session being ended in bounded time: the handler\'s wait returns, at most one close frame is sent, no data from the offending frame is delivered, no frame larger than the configured limit is buffered, and the process survives. A live peer that answers pings is never disconnected.',
 ['inputs','fault_sequences'],'all single-frame violations x positions, EOF/reset at every byte of a frame sequence, all lengths claimed in headers at the boundaries, and all ping-response histories up to a bound in virtual time',
 'There is no websocket test; the keep-alive window is 15 s of real time.',
 ['core/websocket/transport.cpp','core/websocket/websocket.cpp',CN],[('asyncWorker validation and ping timer', 'core/websocket/transport.cpp')],None,['bytes sent, handler wakeups, virtual time'])
prop('C13','WebSocket: handler and reader threads never corrupt each other',
 'Under every interleaving of the handler sending, polling, receiving, closing or returning with frames, pings, close and disconnects arriving, no data race, use after free, lost or duplicated message, deadlock or interleaved partial frame occurs, and the handler\'s receive loop always ends once the peer has gone or the server is shutting down.',
 ['schedules'],'all interleavings up to a preemption bound of small handler programs against small peer scripts',
 'There is no websocket test, let alone a controlled schedule.',
 ['core/websocket/transport.cpp','core/websocket/websocket.cpp',CN],[('m_read_mtx, m_stopped', 'core/websocket/websocket.hpp')],
 [('m_queue, m_stopped','shared by handler and reader','core/websocket/websocket.hpp')],['messages, bytes sent, memory accesses'])
prop('C14','Server-sent events arrive exactly as pushed',
 'A client that parses the event stream by the HTML standard receives exactly the events pushed, in order, with the same data (including line breaks), event name, id and retry (a name or id which itself contains a line break is refused and never breaks the stream); the stream is announced as text/event-stream, uncompressed and without content-length, whatever else was requested on the connection before; a stream in response to a HEAD request is refused, so nothing follows the headers of that response. After the peer has gone, pushing fails or is ignored without crashing and the writer reports itself disconnected, and closing sends a final close event and closes the socket.',
 ['inputs','histories','fault_sequences'],'all sequences of pushed events up to a length over an alphabet of field contents (empty, multi-line, colon and space edge cases), with peer loss at each step',
 'There is no SSE test.',
 ['core/sse/writer.cpp',WK],[('Writer::push', 'core/sse/writer.cpp')],None,['bytes sent to the client'])
prop('C15','JSON values survive serialisation and parsing',
 'Any JSON value (null, booleans, 32-bit integers, finite numbers, arbitrary strings and keys, nested arrays and objects) serialised to text is a standard JSON document denoting that same value, and parsing it back yields an equal value of the same type. Copying, assigning and re-assigning values gives independent equal copies and releases everything.',
 ['inputs','histories'],'all values up to a depth over an alphabet of leaves and of string characters (quotes, backslashes, control and structural characters), and all short assignment histories',
 'The json test prints results without checking them and covers one document.',
 ['core/json/stringify.cpp','core/json/parse.cpp','core/json/property.cpp'],[('stringEscapeTable / stringUnescapeTable', 'core/json/stringify.cpp'),('Property::clone', 'core/json/property.cpp')],None,['stringify() text, parse() result'])
prop('C16','Standard JSON text is parsed correctly and bad text is never dangerous',
 'Every standard JSON document (numbers within range) is parsed to the value it denotes, for every placement of whitespace, escapes, empty containers and structural characters inside strings. Every other text either throws a standard exception or yields some value, without crashing, reading out of bounds or looping.',
 ['inputs'],'all token sequences up to a length over an alphabet of JSON tokens and hostile characters, and all whitespace/escape variants of a set of documents',
 'The json test covers one valid document and no invalid one.',
 ['core/json/parse.cpp'],[('parse() splitter', 'core/json/parse.cpp')],None,['parse() result or exception'])
prop('C17','The key-value store is a durable map',
 'For every sequence of set, remove, clear, get, has and size, including across any number of clean reopenings, the store answers exactly like a map from arbitrary byte-string keys to arbitrary byte-string values; an operation that cannot be stored is rejected with an error and leaves the store unchanged and readable.',
 ['histories','inputs'],'all operation sequences up to a depth over keys and values covering empty, binary, and the 16-bit key-size boundary, with reopening at every point',
 'The storage test runs one fixed sequence with short keys.',
 ['extra/kvstorage/interface.cpp','extra/kvstorage/driver.cpp'],[('transaction log and replay', 'extra/kvstorage/driver.cpp')],None,['public store API'])
prop('C18','Acknowledged key-value writes survive a process crash or write failure',
 'If the process dies at any point of any history - between or inside the file operations of an update, of opening or of closing - reopening the store succeeds and yields the state after all acknowledged operations, or additionally the one in flight. If a file write fails or is short, the operation reports an error and the data already stored can still be read after reopening.',
 ['crash_points','fault_sequences','histories'],'every crash point (every file-system operation boundary and every torn prefix of every write) of every short history, and every injected write error',
 'The storage test never crashes or fails a write.',
 ['extra/kvstorage/driver.cpp'],[('append+flush log, rewrite on open', 'extra/kvstorage/driver.cpp')],None,['file contents, reopened store'])
prop('C19','The key-value store is linearizable',
 'Concurrent set, remove, clear, get, has and size calls from several threads behave as if executed one at a time in some order consistent with their real-time order, the state found after reopening agrees with that order, and no schedule leads to a data race, crash or deadlock.',
 ['schedules'],'all interleavings up to a preemption bound of 2-3 threads with 1-2 operations each on colliding keys',
 'No test uses two threads.',
 ['extra/kvstorage/interface.cpp'],[('mtlock', 'extra/kvstorage/interface.cpp')],None,['call/return history, memory accesses'])
prop('C20','The virtual file system is a consistent map of files',
 'For every sequence of write, remove, move, read, info and list operations the virtual file system answers like a case-insensitive map from paths to contents: moving replaces the target and a failed move changes nothing, timestamps are kept (creation on rewrite) and reported under their own names, and the reported totals always equal the number of files and the sum of name and content sizes.',
 ['histories'],'all operation sequences up to a depth over a small set of colliding paths (case variants, self-moves) and contents, with virtual time',
 'The vfs test runs one fixed sequence.',
 ['extra/vfs/interface.cpp'],[('m_data/m_info updates', 'extra/vfs/interface.cpp')],[('m_info','file and size totals','extra/vfs/vfs.hpp')],['public VFS API'])
prop('C21','A saved virtual file system image loads back identically everywhere',
 'Saving any set of files, under any names tar can hold (not empty, without NUL; others are refused), to .tar, .tar.gz or .tgz and loading it into another virtual file system yields the same names, contents and modification times with correct totals; the image is a standard tar (gzip) archive that other tar implementations read to the same files, and a standard ustar archive with plain files loads correctly. An unsupported extension is rejected, and an unwritable path or a failing file operation is reported.',
 ['inputs','configurations'],'all sets of up to 2-3 files over an alphabet of names (around 100 bytes, non-ASCII) and contents (around multiples of 512 and the compression chunk sizes, compressible and not) x formats',
 'The vfs test is flaky and excluded; it round-trips one set of small files.',
 ['extra/vfs/format_tar.cpp','extra/vfs/interface.cpp','core/compression/zlib_stream_compress.cpp'],[('serializeHeader/parseHeader/getPaddingSize', 'extra/vfs/format_tar.cpp')],None,['loaded files, archive bytes'])
prop('C22','Damaged virtual file system images are handled safely',
 'Loading any truncated or corrupted image either fails with an exception or loads files, but never crashes, hangs, reads out of bounds or invents contents: every file loaded is one whose header checksum was valid, and files already in memory keep their totals consistent.',
 ['inputs','fault_sequences'],'every truncation point and every single-byte corruption (over a hostile byte alphabet) of header regions of small archives, plain and gzip',
 'No test loads a damaged archive.',
 ['extra/vfs/format_tar.cpp','extra/vfs/syncqueue.cpp'],[('parseHeader checks', 'extra/vfs/format_tar.cpp')],None,['load result or exception'])
prop('C23','Virtual file system operations and snapshots are thread-safe',
 'Under every interleaving of readers, writers and snapshot saving/loading - which itself uses a second thread - each snapshot contains every file that was present throughout, operations behave atomically, saving and loading terminate, and there is no data race, lost file, deadlock or spurious error.',
 ['schedules'],'all interleavings up to a preemption bound of the saver/loader with its worker thread and one or two other threads',
 'The vfs test is known to be flaky under the real scheduler; no test controls schedules.',
 ['extra/vfs/syncqueue.cpp','extra/vfs/interface.cpp'],[('SyncQueue', 'extra/vfs/syncqueue.cpp')],[('m_queue, m_done, m_watch_future','producer/consumer state','extra/vfs/formats.hpp')],['archive contents, memory accesses'])
prop('C24','The static file server serves exactly the files under its root',
 'For every request path, the static server returns either 404 or the exact bytes and mime type of a regular file located inside its root directory (directories resolve to their index.html or index.htm), never a file outside it, whatever mix of dots, slashes, backslashes and encodings the path contains, and it never crashes. Every file in the root is reachable by its plain path (no component ending in a dot, no backslash), and a plain path never gives another file.',
 ['inputs'],'all paths up to a length over an alphabet of path tokens including traversal tokens, names inside and outside the root, over-long components and NULs',
 'No test exercises the static server.',
 ['extra/staticserver/staticserver.cpp'],[('flattenPathName/resolvePath', 'extra/staticserver/staticserver.cpp')],None,['response, files opened'])
prop('C25','Base64, hex and URI-component codecs are exact and total',
 'Decoding an encoding returns the original bytes for every input, encodings are the standard ones (RFC 4648 base64 and hex, RFC 3986 percent-encoding) so other decoders accept them, and decoding arbitrary text either yields bytes or throws a standard exception, never accepting characters outside the alphabet and never reading out of bounds.',
 ['inputs'],'all byte strings up to a length over full and boundary alphabets and all texts up to a length over valid and near-valid characters',
 'The encoding test decodes five fixed strings.',
 ['core/encoding/base64.cpp','core/encoding/hex.cpp','core/encoding/url.cpp'],[('tables and block tails', 'core/encoding/base64.cpp')],None,['return values'])
prop('C26','SHA-1 digests are correct for any chunking',
 'The digest of any message equals the FIPS 180 SHA-1 of it, however the message is split over update calls, and a reset object behaves like a new one.',
 ['inputs','histories'],'all message lengths across several block boundaries x all two- and three-way splits, plus reset histories',
 'No test computes a hash.',
 ['core/crypto/sha1.cpp'],[('update/digest padding', 'core/crypto/sha1.cpp')],None,['digest bytes'])
prop('C27','One-shot compression is lossless and rejects damaged data',
 'For every buffer, quality and container format, compressing and then decompressing with brotli, gzip or deflate returns the same bytes, and the compressed form is standard. Decompressing a stream that is truncated, has other bytes behind it, or is damaged in any way its format can detect throws instead of returning wrong or partial data, crashing or looping (an empty buffer stands for itself; brotli carries no checksum, so a damaged brotli stream is decided by whether a standard decoder accepts it).',
 ['inputs'],'buffer sizes around every internal chunk boundary (input and output side) x contents x quality x format; every truncation and single-byte corruption of small streams',
 'The tests compress random buffers of fixed sizes at one quality and never damage a stream.',
 ['core/compression/brotli.cpp','core/compression/zlib_oneshot.cpp'],[('chunk loops', 'core/compression/zlib_oneshot.cpp')],None,['returned buffers or exception'])
prop('C28','Streaming gzip is lossless for every chunking and reuse',
 'Feeding data to the streaming gzip compressor in any chunks with any flush choices, then ending it, yields a standard gzip stream of exactly that data, and the streaming decompressor returns it for any chunking of its input, reporting completion exactly at the end (input behind the end of a stream is out of scope). Objects can be reset, moved and destroyed at any point without leaking or corrupting state.',
 ['inputs','histories'],'all sequences of chunk/flush/end/reset/move operations up to a depth over chunk sizes around the internal buffer, x all small re-chunkings on the decompressing side',
 'No test uses the streaming classes directly.',
 ['core/compression/zlib_stream_compress.cpp','core/compression/zlib_stream_decompress.cpp'],[('Stage machine', 'core/compression/zlib_stream_compress.cpp')],[('m_stage','stream life cycle','core/compression/compression.hpp')],['bytes returned, exceptions'])
prop('C29','Header, query and URL containers keep every value retrievable',
 'For every history of set, append, delete and lookup, header and query containers behave as case-insensitive multi-maps: what was stored or parsed under a key in any letter case is found under any letter case, repeated values are kept in order, and copies are independent. Parsing a URL or query string yields its components exactly, a text without a scheme or host is refused, and serialising an absolute URL gives back an equivalent URL. A request object holds exactly the URL, method, headers and body it was made from.',
 ['histories','inputs'],'all operation sequences up to a depth over colliding keys, and all URLs composed from an alphabet of components',
 'The tests print one URL and check one header list.',
 ['core/http/kvcontainer.cpp','core/http/url.cpp','core/http/urlsearchparams.cpp'],[('key normalisation', 'core/http/kvcontainer.cpp'),('URL::parse/href', 'core/http/url.cpp')],None,['public container API'])
prop('C30','Cookies are read and set faithfully',
 'Every cookie a client sends is retrievable with its exact value, setting and deleting cookies is reflected by lookups and by exactly one Set-Cookie line per touched cookie with its attributes, deletion expires the cookie at the client, and copies or moves of a cookie set preserve both its values and its pending Set-Cookie lines.',
 ['histories','inputs'],'all sequences of parse/set/delete/copy/move operations up to a depth over colliding names in several letter cases',
 'The cookie test serialises one fixed pair.',
 ['core/http/cookies.cpp','core/http/request.cpp','core/http/response.cpp'],[('m_data and m_set_queue', 'core/http/cookies.cpp')],None,['public cookie API, serialised lines'])
prop('C31','HTML templates substitute exactly the placeholders',
 'Rendering replaces every well-formed placeholder with the value of its variable (or nothing when undefined) and leaves all other text byte-identical; substituted values are never themselves interpreted as templates, and rendering terminates for every template.',
 ['inputs'],'all templates up to a length over an alphabet of template tokens x property maps whose values contain template syntax',
 'No test renders a template.',
 ['core/html/renderer.cpp','core/html/templatemap.cpp'],[('renderTemplate scan', 'core/html/renderer.cpp')],None,['rendered text'])
prop('C32','String utilities match their definitions on every input',
 'Trimming, case mapping, splitting, joining, replacing, prefix/suffix and containment tests return what their names define for every input, including empty strings, absent patterns, patterns longer than the text and patterns at the edges, and always terminate without out-of-bounds access; joining what was split on a separator restores a text without empty parts.',
 ['inputs'],'all texts and patterns up to a length over a small alphabet including whitespace and separator characters',
 'The strings test prints six trims without checking them.',
 ['core/polyfill/strings.cpp'],[('string helpers', 'core/polyfill/strings.cpp')],None,['return values'])
prop('C33','Log lines are whole and in order under concurrency',
 'Every log or error call emits its whole message as one contiguous line exactly once, lines of one thread keep their order, and concurrent calls never interleave inside a line, race or deadlock.',
 ['schedules','inputs'],'all interleavings up to a preemption bound of 2-3 threads logging single and list messages, and all message lists over the supported types',
 'No test inspects the log output.',
 ['core/utils/syncout.cpp'],[('m_write_mtx', 'core/utils/syncout.cpp')],None,['bytes written to stdout/stderr'])
prop('C34','Connection and request identifiers are unique and thread-safe',
 'Identifiers generated concurrently by any number of connections are well-formed (8 lower-case hex digits matching the numeric value), survive copying and assignment, are never produced from a raced generator state, and two connections never get the same sequence of identifiers because of a race.',
 ['schedules'],'all interleavings up to a preemption bound of 2-3 threads creating identifiers',
 'No test creates identifiers concurrently.',
 ['core/crypto/uid.cpp'],[('shared generator', 'core/crypto/uid.cpp')],[('rng_gen','process-wide generator state','core/crypto/uid.cpp')],['identifier values, memory accesses'])
prop('C35','A TCP connection may be closed by any thread at any time',
 'Under every interleaving of one thread reading, one writing and any number closing the same connection, and under moves of idle connections, the descriptor is closed exactly once, never used after being closed (so a reused descriptor can never be hit), concurrent writes do not interleave their bytes, blocked calls return, and nothing races or deadlocks. Timeouts configured while nobody is closing the connection take effect with millisecond resolution.',
 ['schedules','configurations'],'all interleavings up to a preemption bound of reader, writer and closers on one connection; all timeout values over a boundary alphabet',
 'The tcp test waits for a client by hand and is not run.',
 [CN,LS],[('end(), read/write mutexes', CN)],[('hSocket','descriptor, swapped on close',CN)],['socket calls, memory accesses'])
prop('C36','Basic credentials are extracted exactly',
 'A well-formed Basic authorization header yields exactly the user name and password that were encoded (split at the first colon, either may be empty or contain any other byte), the scheme name is case-insensitive, and any other scheme or malformed value yields no credentials and no failure of the request.',
 ['inputs'],'all user/password pairs up to a length over an alphabet including colon, space and non-ASCII, x scheme spellings and malformed variants',
 'No test parses an Authorization header.',
 ['core/http/auth.cpp',T1],[('parseBasicAuth', 'core/http/auth.cpp')],None,['credentials returned, request URL'])
prop('C37','Dates, mime types, statuses, methods and byte orders are standard',
 'Formatted dates are the standard HTTP (RFC 7231) form of the timestamp for every time, file extensions and mime types map consistently in both directions (in any letter case of the extension), every status code and method maps to its standard name and back, and byte-order conversions are exact and self-inverse.',
 ['inputs'],'every day over a multi-century range with boundary times of day, every table entry in all case patterns, every 16-bit and boundary 32/64-bit value',
 'No test touches these tables.',
 ['core/polyfill/date.cpp','core/polyfill/mimetype.cpp','core/http/status.cpp','core/http/method.cpp','core/utils/byteswap.cpp'],[('lookup tables', 'core/polyfill/mimetype.cpp')],None,['return values'])
prop('C38','Acknowledged key-value writes survive power loss',
 'After a write has been acknowledged, losing power (all data not explicitly flushed to stable storage) does not lose it.',
 ['crash_points'],'every subset of unsynced blocks dropped at every point of every history',
 'No test cuts power.',
 ['extra/kvstorage/driver.cpp'],[('no fsync is ever issued', 'extra/kvstorage/driver.cpp')],None,['file contents after power loss'])
prop('C39','The lock-free flags behave correctly on weakly ordered hardware',
 'Every guarantee above that involves several threads also holds under the weakest memory ordering the C++ standard allows, not only under sequentially consistent interleavings of the synchronisation operations.',
 ['schedules'],'all C++11 memory-model executions of the concurrent scenarios',
 'Tests run on one x86-64 host.',
 [IN,'core/websocket/websocket.cpp'],[('atomic flags', IN)],None,['memory accesses'])

prop('C40','Handler context, responses and the log name the same request and peer',
 'Every handler call is told the address and port of the very client it serves, the listening port and the configured timeouts, one identifier that stays the same for the whole connection and differs between connections, and an identifier of its own for the request. The response (also an error response made by the server) carries exactly these two in x-request-id. With request logging on, each request is logged once as a whole line with its identifier, peer, method, path and the status that was sent, and failures with their reason; with transport logging on, each connection is logged when created and when closed; with logging off nothing is written.',
 ['histories','configurations'],'every pair of handler outcomes on one connection, every assignment of requests to up to three connections, boundary peer addresses and ports, and every combination of log settings',
 'No test opens two connections or reads the log of a request.',
 [WK,T1,LS],[('requestCTX and the log lines of connectionWorker()', WK),('x-request-id in respond()', T1),('peer address in acceptConnection()', LS)],None,['RequestContext given to the handler, response headers, bytes on standard output'])
prop('C41','Idle, slow and stalled peers are handled by the configured timeouts only',
 'A connection whose client stays silent, stops in the middle of a request, or stops reading a response is closed, and its worker freed, once the configured receive or send timeout has passed without any progress and not before; a client which keeps making progress, with pauses below the timeout between any two bytes, is served completely however long the whole takes, and so is one whose handler works longer than any timeout. Nobody else waits for such a peer.',
 ['inputs','schedules','configurations'],'every byte position of a request at which the client pauses or stops, pauses just below and above the timeout, several window sizes for slow readers, all pairs of a set of timeout values',
 'A test would have to sleep for the timeouts; none does.',
 [LS,CN,T1],[('setTimeouts() of accepted connections', LS),('read()/write() and closeOnTimeout', CN),('awaitNext()', T1)],None,['time and order of bytes and closing seen by the client'])
prop('C42','Using the library leaves no memory or descriptors behind',
 'Whatever happens to a request, websocket, event stream, key-value file, archive, compressed stream or JSON document, including refusal, damage, exceptions thrown by the handler, clients leaving at any byte and failing socket calls or thread starts, once it is over all the memory and every descriptor taken for it has been given back, so a process may go on forever.',
 ['inputs','fault_sequences','histories'],'every pair of handler outcomes, every byte position at which a client stops, every single and double fault of a socket call, every cut and single-byte change of the inputs of decoders',
 'Tests exit after a handful of operations and never look at memory or descriptors.',
 [T1,WK,CN,'extra/kvstorage/driver.cpp','core/compression/zlib_stream_decompress.cpp','core/json/property.cpp'],[('m_next ownership', T1),('initial data of the driver','extra/kvstorage/driver.cpp'),('z_stream ownership','core/compression/zlib_stream_decompress.cpp')],None,['allocated bytes and open descriptors before and after'])
prop('C43','Starting a server is all or nothing, and stopping gives the port back',
 'Constructing a LambdaInstance either leaves a server that accepts connections on its port and reports the configuration it was given, or throws an exception derived from std::exception (carrying the operating system\'s error where there is one) and leaves no thread, descriptor, bound port or start message behind, whichever step of starting fails (taken port, socket, bind, listen, option, thread, a limit that is too low), without affecting other servers. Once a server has been shut down and waited for, or destroyed, its port can be bound again (at once with fast port reuse), any number of times; stopping twice is harmless.',
 ['histories','fault_sequences','configurations'],'every sequence of up to a bounded number of start (with every kind of failure), serve, stop and destroy steps of two servers competing for two ports',
 'The instance_restart test restarts one server twice and never fails to start.',
 [IN,LS],[('LambdaInstance constructor', IN),('ListenSocket constructor and stop()', LS)],[('hSocket','the listening descriptor',LS)],['exceptions, open descriptors, threads, listening ports, getConfig()'])
prop('C44','Connections and servers in one process do not affect each other',
 'What a client receives is determined by its own bytes, the handler and the configuration of the server it is connected to: for every interleaving of the steps of several clients on one or several LambdaInstances of one process - including malformed and oversized requests, failing handlers, event streams, WebSocket sessions, resets, and other servers being started, replaced or stopped meanwhile - each client receives exactly the bytes it would receive alone, apart from identifiers and dates.',
 ['schedules','histories','configurations'],'every interleaving, at the granularity of TCP segments, of the scripts of two or three clients over a set of script shapes and server configurations',
 'No test has two clients or two servers.',
 [T1,WK,IN],[('per-connection transport context', T1),('connectionWorker', WK)],[('function-local statics','shared by all connections',T1)],['bytes sent to each client'])
prop('C45',"The program's locale changes nothing the library reads, writes or sends",
 'Everything the library produces or accepts - JSON texts and numbers, dates, headers, query strings, URLs, cookies, methods, statuses, MIME types, credentials, codecs, templates, string helpers, snapshots, key-value files, compressed data, log lines and whole HTTP, WebSocket and event stream exchanges - is the same under every locale the program has chosen with setlocale() or std::locale::global() as in the C locale: no decimal comma, grouping, foreign digit, letter, blank, case rule or name of a day or month gets into it.',
 ['inputs','configurations'],'every operation and input of a bounded set (every byte at every kind of place, a grid of numerals, a leap year of dates, a set of exchanges) under every one of a set of locales that differ from C in each category',
 'All tests run in the C locale.',
 ['core/json/parse.cpp','core/json/stringify.cpp','core/polyfill/date.cpp','core/encoding/base64.cpp','core/html/renderer.cpp',T1],[('parseFloat()','core/json/parse.cpp'),('toUTCString()','core/polyfill/date.cpp'),('alphabet test','core/encoding/base64.cpp'),('Strings','core/polyfill/strings.cpp')],None,['results of every operation compared with the C locale'])
prop('C46','Setting the system clock changes nothing but dates',
 'However and whenever the system clock is set forwards or backwards - before a server starts, during a request, a WebSocket session, an event stream, a shutdown, between accesses to the virtual file system or the key-value store - every client receives the same bytes at the same moments, peers that are alive are kept and silent ones are dropped when they would have been, connection timeouts keep their length, handlers, shutdown, snapshots and the store behave and are logged the same; and the dates of responses and the times of files are what the system clock says at that moment, also when it says less than before.',
 ['schedules','histories'],'every way of a set of clock changes at every moment of a grid over every script of a set of server sessions and storage histories',
 'No test changes the clock.',
 ['core/websocket/transport.cpp','core/polyfill/date.cpp','extra/vfs/interface.cpp',IN,T1],[('ping timing','core/websocket/transport.cpp'),('Date()','core/polyfill/date.cpp'),('times of files','extra/vfs/interface.cpp')],None,['bytes sent and their time by the monotonic clock','dates','times of files','log lines'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
