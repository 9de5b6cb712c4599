#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

B="src/server/boundary.rs"; F="src/server/field.rs"; S="src/server/save.rs"; M="src/server/mod.rs"
CM="src/client/mod.rs"; CL="src/client/lazy.rs"; CS="src/client/sized.rs"; CH="src/client/hyper.rs"
I="src/server/iron.rs"; H="src/server/hyper.rs"; N="src/server/nickel.rs"; T="src/server/tiny_http.rs"; K="src/mock.rs"

p("C01","Decoding reproduces every field exactly, however the body arrives in chunks",
  "For any well-formed multipart/form-data body (parts separated by CRLF--boundary, whose content does not itself contain --boundary, at most four part headers totalling under about 900 bytes), reading all entries yields exactly the parts that were encoded: same number, order, names, filenames, content types and content bytes, then a clean end. The result does not depend on how the transport splits the body into reads nor on whether the field is read with small or large buffers. Content may contain CRs, LFs, dashes and any proper prefix of the delimiter, including at its very start or end.",
  ["inputs","schedules"],"every well-formed body, every boundary of 1..70 characters, every way of splitting the byte stream into reads, every size of read buffer on the consumer's side",
  "The existing tests decode a few short bodies (and one split position sweep over a 30-byte body with a 1 KiB minimum buffer, which hides the split), so delimiters straddling the 1024-byte minimum or the 8192-byte buffer edge are never met.",
  [B,F,M],[("scan for the delimiter, holding back a possible prefix of it",B+" BoundaryReader::read_to_boundary, find_boundary"),("header parsing and hand-over to field data",F+" with_headers, ReadEntry::read_entry")],
  ["Multipart::with_body + read_entry/foreach_entry, field headers and bytes"],
  [("search position / state","how far the buffer has been scanned and whether the delimiter was found",B+" BoundaryReader")])

p("C02","Hostile request bytes never panic, hang or run past the body",
  "Whatever bytes arrive as a request body, with any boundary string and any splitting into reads, reading entries and their data (with or without saving) never panics, always finishes within a number of steps linear in the size of the body, never reads the transport again after it has signalled its end (where it might wait for ever), and never delivers bytes that are not in the body or delivers more bytes than the body holds. For bodies under 1000 bytes the outcome (fields delivered, and whether it ended cleanly or in an error) is the same for every splitting into reads.",
  ["inputs","schedules"],"every byte string as body, every boundary string, every splitting, every log level",
  "Tests feed a handful of well-formed bodies and two malformed ones; malformed input space is unbounded and panics or endless loops hide behind specific alignments.",
  [B,F,S,M],[("index arithmetic around the found delimiter",B+" read_to_boundary, consume_boundary"),("header parse loop that must stop when the buffer stops growing",F+" with_headers"),("copy loops of the save API",S+" try_read_buf, save_text")],
  ["panic hook, watchdog on read calls, comparison of delivered bytes with the body"])

p("C03","Memory use while reading or skipping fields is bounded, whatever the body size",
  "Reading a field in pieces, skipping it, or saving it to disk uses an amount of heap memory bounded by a constant (well under 256 KiB beyond the requested minimum buffer size and memory threshold), independent of the size of the field and of the body. In particular a field saved with a memory threshold never accumulates more than that threshold (up to growth slack of the in-memory buffer) in memory.",
  ["inputs","schedules"],"every body size (checked up to many MiB), every content including delimiter-like content and garbage before the first delimiter, every splitting, every reading style",
  "Unit tests use bodies of a few hundred bytes and never look at allocation, so a buffer that grows with the input passes all of them.",
  [B,S],[("bounded buffering of the delimiter scanner",B+" BoundaryReader::from_reader / read_to_boundary"),("switch from memory to disk at the threshold",S+" with_path")],
  ["counting global allocator: peak live bytes during the operation"])

p("C04","However a field is read, the following fields are intact",
  "Any way of reading a field, including not at all, partially, by peeking without consuming, with a raised minimum buffer size, or by reading past its end, leaves the next and all later entries exactly as encoded, and reading on after the end of a field keeps returning no data. All ways to advance (by reference, by value, in place, from the field, per-entry callback) see the same sequence, asking again after the end keeps reporting the end, and peeked data always equals the data then consumed.",
  ["histories","schedules","inputs"],"every interleaving of reads, peeks, consumes, buffer-size changes and advances over every field of every well-formed body and splitting",
  "Tests read each field either fully with one API or not at all; the interaction of a partly consumed buffer with an already found delimiter is only reached by mixed histories at particular alignments.",
  [B,F,M],[("delimiter state carried across partial consumption",B+" consume, consume_boundary"),("entry iteration APIs",F+" read_entry, next_entry, next_entry_inplace; "+M+" foreach_entry, into_entry")],
  ["Read/BufRead calls on field data and entry iteration, compared step by step with a reference list of parts"])

p("C05","Truncated or malformed bodies are always reported as errors",
  "If a body ends before its closing delimiter is complete, or bytes other than CRLF or -- follow a delimiter, or a part's headers are cut off or unusable, then reading entries through the end returns an error rather than a clean end, and every byte delivered before that is a correct prefix of what was sent: no whole part is delivered that was not fully there before the cut except possibly the last one as a prefix. Saving such a request never reports full success.",
  ["inputs","fault_sequences","schedules"],"every truncation point of every well-formed body, every corruption of the bytes following a delimiter, every splitting",
  "One test checks a single body without delimiters. Truncation must be caught at each of the possible cut points, including inside the delimiter and between it and the end marker.",
  [B,F,S],[("end-of-input handling while looking for the delimiter",B+" consume_boundary"),("end-of-input handling inside part headers",F+" with_headers"),("propagation by the save API",S+" with_entries")],
  ["sequence of entries and the final Ok(None)/Err for each truncated body"])

p("C06","A transient read error never loses, duplicates or corrupts data",
  "If the underlying body reader fails at any point with a transient error (interrupted, would-block, timed out) and the caller repeats the call that failed, the entries, headers and data finally delivered are exactly those of an undisturbed run. The error is reported to the caller with its own error kind (interruptions may be retried internally), and no error ever appears as the end of a field or of the request. A whole-request save interrupted this way returns what was saved so far and can be resumed without losing or repeating any field.",
  ["fault_sequences","schedules","inputs"],"every read call of the transport as the failing one, repeated and multiple failures, each error kind, every reading style including saving and resuming",
  "No test injects any I/O error into the reading side.",
  [B,F,S],[("no state change before a fallible refill",B+" read_to_boundary, consume_boundary"),("delimiter consumed before headers can be read",F+" read_entry, read_headers"),("retry on interruption and partial results",S+" try_read_buf, with_entries")],
  ["fault-injecting Read under Multipart, results compared with a fault-free reference"])

p("C07","Part headers are interpreted correctly and invalid ones are rejected",
  "For each part, the field name and optional filename are exactly the parameter values given in Content-Disposition: form-data, whatever the order of the parameters and headers, letter case of header names, optional whitespace around separators, presence of other parameters or headers, use of quoted or bare values, and non-ASCII characters or semicolons and delimiter-like text inside quoted values. The content type is the given Content-Type, or absent if there is none, and the text/binary classification follows it. A part without Content-Disposition, not of type form-data, without a name, with an unparsable Content-Type, or with more headers than supported is reported as an error; reading on then gives the part after it, and nothing inside the rejected part is ever taken for a field.",
  ["inputs"],"every combination of header order, case, spacing, extra headers and parameters, and parameter values free of double quotes, CR and LF",
  "Tests check three hard-coded headers in one order and name lookup only; values containing separators or preceding parameters are never tried.",
  [F],[("Content-Disposition parsing",F+" ContentDisp::parse_required"),("header lookup and Content-Type parsing",F+" find_header, parse_content_type, is_text")],
  ["FieldHeaders of each entry vs generated values"])

p("C08","The streaming client writes exactly the requested parts as valid multipart",
  "The bytes written by the streaming client (chunked or sized) for any sequence of text, file and stream fields form a body that an independent multipart parser decodes to exactly those fields in order: name, filename, content bytes, and content type as given, guessed from the file extension, or application/octet-stream, and none for text fields. This holds for any acceptable underlying writer, including ones that take only part of the data or are interrupted, and the boundary announced to the request is the one used in the body; a request without fields is still a valid closed body. Quotes and line breaks in names and filenames are percent-encoded the way browsers do, so that no name can add parameters, headers or parts.",
  ["inputs","schedules","fault_sequences"],"every sequence of fields, every content, every pattern of short or interrupted writes and short or interrupted stream reads",
  "Tests round-trip a few random alphanumeric fields through this crate's own parser, so encoder and decoder can share a mistake, and headers such as the guessed type are not checked against anything independent.",
  [CM,CS],[("delimiters, headers and data writing",CM+" MultipartWriter"),("in-memory buffering and late header application",CS+" SizedRequest")],
  ["bytes received by the HttpStream, boundary and length given to apply_headers"])

p("C09","The lazy client body holds every field exactly once, however it is read",
  "The body produced by the lazy client for any set of text, file and stream fields, read in any pattern of buffer sizes, is decoded by an independent multipart parser to exactly the same multiset of fields (names, filenames, content types and content), with nothing lost, repeated or altered. Reading stops exactly at the end of the body and stays there, the reported boundary is the one used, and a builder without fields yields a valid empty body. If a stream or writer fails transiently (interrupted) and the read is repeated, the body is still the same. Quotes and line breaks in names and filenames are percent-encoded the way browsers do, so that no name can add parameters, headers or parts.",
  ["inputs","schedules","fault_sequences"],"every set of fields, every sequence of read sizes, every pattern of short reads and interruptions of the field streams",
  "Tests read the lazy body in one go with random small fields and never vary the read size, never count bytes, never inject errors and never use an empty set of fields.",
  [CL],[("staged reading of text, streams and end delimiter",CL+" PreparedFields::read"),("preparation of headers",CL+" PreparedField::from_stream, from_fields")],
  ["bytes of PreparedFields / of the stream passed to send()"])

p("C10","A declared content length equals the number of body bytes sent",
  "Whenever the client announces a content length (sized requests, lazy requests made only of text and files, and their HTTP client integration), exactly that many body bytes are then produced (as long as the files do not change in between). Requests containing streams of unknown length announce none when sent lazily, and sized requests always announce one.",
  ["inputs","configurations"],"every combination of text, file and stream fields, empty and non-empty, short and long names and contents, for each client API",
  "No test compares the announced length with the bytes produced.",
  [CL,CS,CH],[("running total of header, data and delimiter lengths",CL+" PreparedFields::from_fields, to_body"),("length of the buffered body",CS+" finish")],
  ["apply_headers argument / Content-Length header vs byte count on the stream"])

p("C11","Client failures are always reported, never a success with missing data",
  "If opening or reading a field's source, opening the request stream, refusing the headers of a sized request, or writing or closing the output fails (other than by interruption) at any point, then the client API reports an error, either from the failing call or from the send, and never reports success for a request whose body lacks data that was asked to be sent. The lazy client reports the name of the field whose file could not be opened.",
  ["fault_sequences","inputs"],"every write call and every source read call as the failing one, each error kind and zero-length writes, missing files, each client API",
  "No test injects a failure on the sending side.",
  [CM,CL,CS],[("error propagation through chained writes",CM+" MultipartWriter, map_self"),("LazyError wrapping",CL+" try_lazy, send"),("delayed sending of the buffered body",CS+" finish")],
  ["results of write_*/send/prepare/read and the bytes that reached the stream"])

p("C12","Saving conserves field data: full is exact, partial is a prefix plus the rest",
  "A save reported as full holds exactly the data of the field or of all fields of the request, with their headers and in order of appearance per name. A save reported as partial holds exactly a prefix of the field's data, and the rest can still be read from the field, so that together they are the whole (an in-memory flush to a failing file excepted, where only the prefix is promised). A save reported as an error at the start has consumed no data and left no file behind, and a previously existing file is never modified by default; files are opened with the options the caller chose (to overwrite, truncate or append, or for their permissions).",
  ["inputs","fault_sequences","configurations","schedules"],"every field content, size, save destination and option, every splitting, every read failure position and file system failure",
  "Tests check only full saves of tiny fields into memory or a temp dir; partial results and their continuation are never examined.",
  [S],[("memory, text and file stages of saving a field",S+" with_path, save_mem, save_text, write_to"),("copy loops",S+" try_read_buf, try_write_all")],
  ["SaveResult, saved data, remaining readable data, files on disk"])

p("C13","The size limit is never exceeded, and only over-limit fields are cut",
  "With a size limit set, no field ever stores more bytes, in memory, on disk or to a caller's writer, than the limit; a field larger than the limit is never reported as fully saved but as stopped by the size limit, holding a prefix of the data, and a field not larger than the limit is saved in full. This holds for every memory threshold and text policy and per field of a request; no limit (or the maximum) means no field is cut, and the default limit is 8 MiB.",
  ["inputs","configurations","schedules"],"every field size relative to limit and threshold (including equal and off by one), every splitting, every text policy and destination",
  "No test sets a size limit.",
  [S],[("limit accounting across the memory and file stages",S+" with_path, write_to, read_mem, try_copy_limited, cmp_size_limit")],
  ["SaveResult reason, stored size, size of files on disk"])

p("C14","The count limit stops after exactly that many fields and loses none",
  "Saving a request with a count limit of N saves all fields and reports full success if the request has at most N fields; otherwise it saves exactly the first N, reports that the count limit was hit, and the first unsaved field is handed back unread rather than lost. With no limit (or the maximum) all fields are saved; if none is chosen the limit is 256. Saving can be resumed from the returned entries after raising the limit or removing entries, the limit counting the entries present, and in the end every field was delivered exactly once.",
  ["inputs","configurations","histories"],"every number of fields, every limit (including 0, exactly N, unlimited), every pattern of resuming",
  "No test sets a count limit.",
  [S],[("counting of saved fields against the limit",S+" with_entries, push_field, recount_fields")],
  ["SaveResult, entries, the partial field and its data after the limit"])

p("C15","Memory threshold decides exactly where field data is placed",
  "A non-empty field not larger than the memory threshold is kept in memory and no file or directory is created for it; a larger one (when the size limit allows more than the threshold) is saved to one file that holds all of its data, and with a threshold of zero every non-empty field goes to a file. With the maximum threshold, or a size limit not above the threshold, saving a field never creates any file.",
  ["inputs","configurations","schedules"],"every size relative to the threshold (including equal and off by one), every splitting, text policy and size limit",
  "Tests use the default threshold with tiny fields or a threshold of zero once.",
  [S],[("decision to leave memory and write out the buffered bytes",S+" with_path, read_mem")],
  ["variant of the saved data, directory listing before and after"])

p("C16","Text handling: valid UTF-8 becomes text, invalid data is never altered",
  "Under the default policy a text field kept in memory is returned as text if and only if its whole data (or, when the size limit cut it off, what was kept) is valid UTF-8, and as the exact raw bytes otherwise; characters split across reads never matter. With text forced, invalid UTF-8 within the memory threshold is reported as a UTF-8 error with the valid data before it (and the rest still readable), never as success; with text ignored or for fields of non-text type in a whole request, data is always raw bytes. No policy loops forever on invalid data.",
  ["inputs","schedules","configurations"],"every byte content valid or not, the invalid sequence at every offset including the end, every splitting, each policy",
  "No test saves invalid or split UTF-8.",
  [S],[("incremental validation",S+" save_text"),("policy per field type",S+" with_entries; "+F+" is_text")],
  ["variant, content and reason of the save result"])

p("C17","Saved files stay in the chosen place, under fresh names, and clean up",
  "Every file or directory created by saving lies inside the directory (or at the path) the caller chose, or the system temporary directory by default, whatever names and filenames the client sent; file names are generated, unique across fields, requests and threads, and never derived from the request. Existing files are never overwritten by default. A temporary directory made with a chosen prefix is named with it. A temporary save directory and everything in it disappears when its handle is dropped or deleted, and stays, with its contents, when it is kept or turned into a path; deleting never reports success for a directory that is still there.",
  ["inputs","schedules","configurations","histories"],"every client-supplied name, each destination API, any number of concurrent savers sharing a directory, each way of ending a save directory's life",
  "Tests save to temp dirs without looking at which paths are created, with harmless names and one thread.",
  [S],[("path choice",S+" temp, with_filename, with_dir, with_path, temp_with_prefix"),("create_new open options",S+" SaveBuilder::new"),("directory ownership",S+" SaveDir")],
  ["recursive directory listings of a scratch root before and after"])

p("C18","Requests are accepted iff POST multipart/form-data with a boundary",
  "Each server integration (hyper by value and by reference, iron, nickel, tiny_http) yields a multipart reader exactly for requests with the method POST (as the server library reads it) whose content type is multipart/form-data with a boundary parameter, whatever the letter case of the type and other parameters, and uses exactly that boundary value (unquoted). Any other request is given back unchanged, with its body unread, or routed to the non-multipart handler.",
  ["inputs","configurations"],"every method, content type, parameter order, quoting and boundary value (letters, digits, and -_.+), for each integration",
  "No test constructs a request of any of the supported servers.",
  [H,I,N,T,M],[("boundary extraction",H+", "+I+", "+N+", "+T+" HttpRequest::multipart_boundary"),("hand-back of the request",M+" Multipart::from_request"),("dispatch",H+" Switch")],
  ["from_request result, fields decoded with the boundary, body of the returned request"])

p("C19","Iron middleware enforces its limits as configured and cleans up",
  "The iron middleware stores the complete set of fields in the request when a multipart request is within its limits, and leaves non-multipart requests untouched and readable. In strict mode it fails with the size (naming the offending field) or count error exactly when a field is larger than, or the request has more fields than, the limit; in lenient mode it always finishes with all fields present, those over the size limit truncated to at most it. Its temporary directories are created under the configured directory and are gone once the request is dropped or failed; malformed bodies give an error.",
  ["inputs","configurations"],"every number and size of fields relative to the limits, both limit behaviours, well-formed and malformed bodies",
  "Nothing tests the middleware at all.",
  [I,S],[("strict and lenient reading loops",I+" Intercept::read_request_strict, read_request_lenient"),("resumption",S+" with_entries, keep_partial")],
  ["BeforeMiddleware::before result, Entries in extensions, directory listings"])

p("C20","Uploads over real HTTP arrive intact under concurrency",
  "Requests sent by the crate's HTTP clients (streaming, sized, lazy) over real connections to servers using each supported integration arrive with exactly the fields that were sent, for any mix of concurrently running requests: no field is lost, altered or delivered to another request, each saved request uses its own directory, and every request is answered. Body, content type and length set in the closure of client_request_mut are overwritten.",
  ["schedules","inputs"],"every interleaving of concurrent requests, client kinds and server integrations",
  "Tests run one in-memory request at a time; no sockets, no server integration, no concurrency.",
  [CH,CL,CM,H,I,N,T,S],[("hyper client integration",CH+"; "+CL+" client_request"),("server integrations",H+", "+I+", "+N+", "+T)],
  ["digest of the fields seen by the server, echoed to and compared by the client"])

p("C21","Saved results account truthfully for what they hold",
  "For every result of a save, each saved datum's reported size equals the number of bytes readable from it and, if on disk, the length of its file; the field count equals the number of saved fields, also after recounting, resuming, or keeping a partial field, which adds exactly that field if it holds data; is-empty and in-memory indications agree with the contents, also after the caller changed the fields. The debug dump shows every field's content, or reports that it could not be written.",
  ["inputs","configurations","histories"],"every outcome (full, partial, resumed) over every combination of sizes, limits and failures",
  "Tests read back full saves only and never compare sizes or counts.",
  [S],[("size and count bookkeeping",S+" add_size, push_field, recount_fields, keep_partial, readable")],
  ["SavedData::size vs bytes read vs file length; Entries::fields_count vs fields"])

p("C22","Result conversions never drop saved data or turn failure into success",
  "Converting a save result keeps what was saved and, in the variants that return an error, an I/O error in a partial or failed save: the pair form returns both, the strict form returns the error, the lenient forms return the saved data for full and partial results and nothing or the error otherwise. Likewise the entry-reading results map entry, end and error faithfully, and the panicking forms panic exactly where documented.",
  ["inputs","configurations"],"every result kind and reason times every conversion",
  "Conversions are only exercised incidentally for full results.",
  [S,F],[("conversions",S+" SaveResult::{okish,map,into_opt_both,into_result,into_result_strict,into_entries}, PartialReason; "+F+" ReadEntryResult")],
  ["conversion outputs for results produced by real saves and reads"])

p("C23","Every request gets its own valid, unpredictable boundary",
  "Each request created by any client API uses a fresh boundary consisting of 1 to 70 characters that need no quoting, which differs from all others generated in the process, on any thread, and the lazy builder uses a new one for each prepared body. The boundary does not depend on the request's content.",
  ["histories","schedules"],"every number of requests on any number of threads and processes",
  "No test looks at the boundaries generated.",
  [CM,CL,"src/lib.rs"],[("boundary generation",CM+" gen_boundary; src/lib.rs random_alphanumeric")],
  ["boundaries passed to apply_headers / returned by boundary()"])

p("C24","Mock transports deliver exactly the bytes written",
  "The mock client stream stores exactly the bytes written to it, with the boundary and length it was given, the mock server request yields exactly those bytes in order, then the end, for any sequence of buffer sizes including empty ones; and the stdout tee passes exactly the accepted bytes once to both outputs and reports when either of them cannot be written or flushed.",
  ["inputs","schedules"],"every byte content and sequence of write and read sizes, including randomly short operations",
  "Tests use the mocks as tools without checking them, and never the tee with short writes.",
  [K],[("random short writes and reads",K+" HttpBuffer, ServerRequest"),("duplication",K+" StdoutTee")],
  ["contents of HttpBuffer::buf, bytes read from ServerRequest, both tee outputs"])

p("C25","Clients send files and streams of any size with bounded memory",
  "Sending files and streams of any size, in any number of fields, through the streaming client (chunked), the lazy client (sent, or read as a prepared body) or these over hyper, needs heap memory bounded by a small constant (256 KiB is allowed) plus what the caller put into the fields as text, no matter how large the files and streams are or how many fields were written before. Only requests opened as sized, which must know the length of everything beforehand, hold the whole body.",
  ["inputs","schedules"],"every size and number of files and streams, every size of the reads they give and of the writes the connection takes, each unbuffered client API",
  "Tests send fields of a few bytes and do not measure memory; a client that collects a file or stream before sending it passes every test and fails on the large uploads the crate is meant for.",
  [CM,CL,CH],[("copying from the source to the request in pieces",CM+" MultipartWriter::write_field_headers, write_stream, write_file"),("prepared body read field by field",CL+" PreparedFields::read"),("streaming instead of buffering the body",CL+" to_body, client_request")],
  ["peak of live heap bytes of the sending thread, with a connection that keeps nothing"])

p("C26","Files, streams and memory are released as soon as they are no longer needed",
  "While a prepared (lazy) body is read, a file or stream field that was completely delivered is closed by the time the next file or stream field has begun, and when the body ended or is dropped, wherever reading stopped and whatever failed, no source is open and each was dropped exactly once. A streaming client has closed a file when write_file returns, with success or error, and the request stream is dropped when the request ended. No file is open while the results of a save are held, nor once a reader of saved data is dropped. The request body given to the server is dropped exactly once, when the last value that holds it goes, and not before. No memory stays allocated when everything obtained from the crate was dropped.",
  ["histories","fault_sequences"],"every mix of fields, point of stopping, failure of a source, output or transport, limit and way of saving",
  "Tests end with their process and never look at what is still open; a leaked descriptor or buffer per request only shows after many requests.",
  [CL,CM,S,M,F],[("fields are taken out of the list as they are read",CL+" PreparedFields::read"),("ownership passed between request reader and entry",F+" ReadEntry, next_entry; "+M+" foreach_entry"),("file handles dropped after saving",S+" with_path, save_file")],
  ["/proc/self/fd below the case's directory, drop counters of streams and transports, live heap bytes of the thread after repeated rounds"])

p("C27","The server reads the request body only as far as it must",
  "The transport is read again only while fewer bytes are buffered behind the position reached than the minimum (1024, or what was set for the field with set_min_buf_size(), plus at most a delimiter's length); creating the reader, consuming, setting sizes, and asking again after the end was reported read nothing. So data that has arrived is handed out without waiting for more than that minimum, for every way of reading. In turn, fill_buf() of a field returns at least the minimum set for it, or all that is left of the field, and the minimum is reset with the next field.",
  ["inputs","schedules","histories"],"every well-formed body, splitting into reads and history of reads, peeks, consumes, saves, minimum sizes and advances",
  "Tests read from byte slices, which never keep a reader waiting, and never look at how far the transport was read or how much a peek returns.",
  [B,F],[("policy of the buffer",B+" set_min_buf_size, UntilEof"),("data returned up to what may be the start of a delimiter",B+" read_to_boundary, find_boundary"),("minimum set anew for each entry",F+" ReadEntry::read_entry")],
  ["each read call of the transport with the amount given before, against the position in the encoded body; length of peeked data"])

p("C28","Clients pass data on as it comes and read sources in turn",
  "The streaming and lazy (chunked) clients hand on everything a source gave before they read any source again, so that a slow source does not hold back what it already gave; sources are read one after the other, each until its end and not again after it; neither adding fields nor preparing a lazy request reads a stream. A field written by the streaming client was handed to the request stream completely when the call returns. One read of a prepared body reads its sources at most once for data and returns just that data. The request is opened once, a sized one only when it is sent and after all sources were read, and finished once, last.",
  ["inputs","schedules"],"every mix of fields, size of the reads sources give and of the writes the request takes, each client API",
  "Tests look at the finished body only, not at the order in which sources were read and data was written.",
  [CM,CL,CS],[("copying piece by piece",CM+" MultipartWriter::write_stream"),("returning what was read before reading on",CL+" PreparedFields::read, send"),("deferred sending",CS+" finish")],
  ["ordered log of source reads, writes, opening and finishing"])

p("C29","Work grows in proportion to the data",
  "The work done by the crate grows at most in proportion to the amount of data, not with its square or more: reading, peeking at or skipping fields of any content, a preamble, a body that never ends or is cut, headers of any form, requests of many fields; saving as text, in memory or as files, in one go or resumed; fields with a large minimum of buffered bytes; sending fields of any size, number and name through the sized, streaming and lazy clients; the mocks. Excepted is what a caller asks for: a huge minimum buffer with tiny reads, or resuming a save over and over for one field each.",
  ["inputs","schedules"],"every size, number of fields, content made to resemble delimiters, splitting into reads and writes, and API",
  "Tests handle a few bytes at a time, for which work growing with the square is not noticeable; a server that does so can be brought down by one request.",
  [B,F,S,CM,CL,CS,K],[("search resumed where it stopped",B+" find_boundary, search_idx"),("header buffer",F+" FieldHeaders::read_from"),("bookkeeping of saved fields",S+" push_field, recount_fields"),("queues of fields",CL+" add_*, PreparedFields::read")],
  ["instructions executed in user mode by a process that handles n, 2n, 4n (8n) units"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
