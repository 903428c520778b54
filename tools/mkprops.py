#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=None)))
BODY=["body/body.go","body/bytes.go","body/empty.go","body/closed.go","body/readerat.go","body/seeker.go","body/buffered.go"]
SRC=["body/readerat.go","body/seeker.go","body/buffered.go"]
SEQ="The existing tests run one fixed single-threaded script per kind of body over a 4-byte source, never Copy a body, never inject an error or a short read, and never call WriteTo."
NOT="The response and handler packages have no tests at all."

p("B01","Concurrent use of a body and its copies is free of data races",
 "Any number of goroutines may call any methods of a body and of its copies at the same time without a data race on the bodies' state. The underlying source is never called by two copies at the same time.",
 ["schedules","histories"],"Lengths up to 2^60, fewer than 2^31 copies. All pairs of operations on one body or on two copies that share a source, in every reachable state of both, on every path.",
 SEQ+" A data race needs a schedule no test creates.",SRC+["body/bytes.go","body/empty.go"],
 [("per-body mutex, then mutex of the shared state","every method of every Body type; common.* helpers"),("registration map is only changed under the shared mutex","body/buffered.go ref/unref/updateStart")],
 [("offset/eof/err/closed","cursor and sticky state of one body","body types"),("length/refcnt/start/bytes/bodies","state shared by copies","*Common types")])
p("B02","No body operation leaves a lock behind or can deadlock",
 "Every operation on a body releases every lock it takes on every way out, including when the source or destination it calls panics, and never takes a lock it already holds. Locks of bodies and of shared state are always taken in one global order, so operations on a body and its copies cannot deadlock against each other.",
 ["schedules","fault_sequences"],"Every path of every operation, with every call to a source or destination returning anything or panicking.",
 SEQ+" Panicking sources and lock orders are never exercised.",BODY,
 [("defer mu.Unlock()","body methods"),("body lock before shared lock","Read/Seek/ReadAt/Close/Copy/Unwrap")])
p("B03","A closed body is inert",
 "Once Close has been called on a body, whatever it returned, the body reports zero bytes remaining, Read, ReadAt and WriteTo return 0 and fs.ErrClosed, Seek returns -1 and fs.ErrClosed, Close returns fs.ErrClosed, Unwrap returns nil, and Copy returns a body that is closed in the same way. No operation on a closed body touches the source or changes anything. The body returned by AlreadyClosed behaves like this from the start.",
 ["histories","inputs"],"Every operation with every argument on every kind of body in every closed state, however it was reached.",
 "Tests close each body once after one script and probe Read, ReadAt, Seek and Close with empty buffers; Copy, Unwrap and WriteTo after Close, Close that fails, and closing with copies open are never tried.",BODY,
 [("closed flag tested first in every method","all Body methods"),("closedSingleton","body/closed.go")])
p("B04","The source is closed exactly once, by the last copy to close",
 "A source which can be closed is closed exactly once, by the Close call on the last open body attached to it, and that call returns the error of closing the source. Closing any other copy leaves the source open and returns nil, no other operation closes the source, and no operation uses it after it has been closed.",
 ["histories","schedules"],"All histories of Copy, Close and other operations over any number of copies.",
 "No test makes a copy, so every test closes a source with one body attached.",SRC+["body/body.go"],
 [("reference count / registration set","ref, unref"),("constructor registers the first body","body/body.go FromReaderAndLength")],
 [("refcnt","open bodies attached","readerAtCommon, seekerCommon"),("bodies","set of open bodies","bufferedCommon")])
p("B05","Copies start identical and then move independently",
 "Copy of an open body returns, without error, an open body of the same kind in the same state: same position, same bytes remaining, same end-of-data or error condition, same source. Afterwards no operation on one of them changes the position or the end-of-data, error or closed condition of the other.",
 ["histories"],"Every reachable state of a body, every operation on either copy.",
 "No test calls Copy.",BODY,
 [("Copy builds a new private state and shares only the common part","Copy methods")])
p("B06","Documented advanced interfaces are always provided",
 "AlreadyClosed, Empty, FromBytes, FromString, FromJSON, FromPrettyJSON, FromProto and FromProtoText always return a body that implements io.ReaderAt, io.Seeker and io.WriterTo. A body made from a reader that has io.ReaderAt plus io.Seeker, io.ReaderAt plus fs.File, or io.Seeker alone implements io.ReaderAt and io.Seeker whenever it is made successfully. A copy implements every one of these interfaces that the original implements.",
 ["inputs","programs"],"All constructors, all capability combinations of the reader, all declared lengths, all states being copied.",
 "Tests cover five of the capability combinations and type-assert nothing about copies or payload bodies.",["body/body.go"]+BODY[1:],
 [("capability tests in FromReaderAndLength","body/body.go"),("method sets of the Body types","body/*.go")])
p("B07","Read delivers the next bytes in order and advances by exactly that many",
 "Read on an open body returns 0 <= n <= len(p), fills the first n bytes of p with exactly the n bytes of the content that follow the body's position, and advances the position by exactly n. This holds for every kind of body, every buffer size and every interleaving of reads, seeks and copies.",
 ["inputs","histories"],"Every reachable state, every buffer length, every short read or error of the source.",
 SEQ,BODY,
 [("cursor arithmetic and clamping","Read methods"),("buffer window start/bytes","body/buffered.go Read, advance, updateStart")],observe=["Read","Seek(0, io.SeekCurrent)","BytesRemaining"])
p("B08","BytesRemaining is exact",
 "BytesRemaining is -1 or a non-negative count, is never negative otherwise, and is -1 only for a body whose length was neither declared nor measurable and whose source has not yet ended. Whenever it is known, a Read that returns n bytes and no error lowers it by exactly n, and after Read has returned io.EOF it is 0. When a source turns out to end before its declared or measured length, the count drops to what is really left, never below 0. It has no effect on the body.",
 ["inputs","histories"],"Every reachable state of a body and of the copies sharing its source.",
 SEQ+" Only lengths 4, 0 and unknown are observed.",BODY,
 [("length minus offset, clamped","BytesRemaining methods"),("length lowered when the source ends early","Read methods")])
p("B09","Source failures reach the caller and never look like end of data",
 "When the source fails a Read or ReadAt with an error other than io.EOF, the body operation that made the call returns that same error (a buffered body, which reads ahead, returns it once it has delivered the bytes that came before), and no copy is ever told io.EOF at that point instead. io.EOF is reported only when the source reported it or when all bytes up to the body's length have been delivered, never after a short read. Once Read has returned an error it keeps returning that error, with no bytes, until a successful Seek.",
 ["fault_sequences","histories"],"Every source result (any count, nil, io.EOF or any other error, at any call), over any history and any copies.",
 "Tests never make the source fail or return short.",SRC+["body/bytes.go","body/empty.go"],
 [("sticky err/eof","Read methods"),("length only lowered on io.EOF","Read in readerat.go and seeker.go"),("shared err","bufferedCommon.err")])
p("B10","Seek validates, clamps and reports the position it set",
 "Seek fails with -1 and changes nothing when whence is unknown (UnknownWhenceSeekError carrying it), when a start-relative offset is negative (NegativeStartOffsetSeekError carrying it) or when the resulting position is negative (NegativeComputedOffsetSeekError carrying that position). A sum of position and offset that overflows is refused or clamped to the end. Otherwise it sets the position to the requested one, but never beyond the end, returns the position it set, clears any end-of-data or error condition, and leaves the copies alone.",
 ["inputs","histories"],"Every 64-bit offset (including ones whose sum overflows) and every whence, in every reachable state.",
 "Tests use seven offsets and one bad whence on a 4-byte body.",["body/bytes.go","body/empty.go","body/readerat.go","body/seeker.go","body/errors.go"],
 [("whence switch, negativity tests, clamp","Seek methods")])
p("B11","ReadAt is positional, has no side effect and is never silently short",
 "ReadAt rejects negative offsets, returns 0 <= n <= len(p), fills the first n bytes of p with exactly the content that starts at the given offset, and whenever n < len(p) returns a non-nil error, io.EOF being reserved for the end of the content. It never changes the position, the bytes remaining or the end-of-data or error condition of the body or of any copy.",
 ["inputs","histories","fault_sequences"],"Every offset and buffer length, every reachable state, every short read or error of the source.",
 "Tests make four in-range calls with a source that never reads short.",["body/bytes.go","body/empty.go","body/readerat.go","body/seeker.go"],
 [("clamping and EOF synthesis","ReadAt methods"),("loop over short reads","body/seeker.go ReadAt")])
p("B12","WriteTo hands over exactly the remaining bytes",
 "WriteTo on an open body writes the remaining content, in order and nothing else, to the destination, advances the position by the number of bytes the destination accepted and returns that number. It returns nil when everything was written and otherwise the destination's error, never io.EOF of its own making; bytes that were not accepted stay readable.",
 ["inputs","fault_sequences"],"Every reachable state; every result of the destination.",
 "No test calls WriteTo.",["body/bytes.go","body/empty.go"],
 [("single Write of data[offset:]","body/bytes.go WriteTo")])
p("B13","Body operations never panic on well-behaved sources",
 "With a source and destination that honour the io contracts, no sequence of operations on bodies and their copies, with any arguments, panics: no index or slice bound, nil dereference, unchecked type assertion, or internal assertion ever fails.",
 ["inputs","histories"],"Every operation, argument, and reachable state, over any number of copies.",
 SEQ,BODY,
 [("bounds established by clamping","all methods"),("assert.Assertf calls","readAt, Read, advance, updateStart, WriteTo")])
p("B14","Source reads stay inside the declared content and are always positioned",
 "A body never asks its source for bytes at or beyond the declared or measured length, and never before the position it serves. At each read of a source with one shared cursor, that cursor is at the offset the read is for, whatever other copies are doing; a source that cannot seek is read strictly forward and each byte is read once.",
 ["inputs","histories","schedules"],"Every read issued to a source in any history of any copies.",
 "The mock source in the tests only ever serves one body and one script.",SRC,
 [("Seek before Read under the shared lock","seekerCommon.readAt"),("clamp to length before reading","Read, ReadAt"),("numToRead bounded by length - endBuffer","body/buffered.go Read")])
p("B15","A buffered stream keeps every byte until each open copy has consumed it",
 "For a source that can neither seek nor be read at an offset, every open copy delivers every byte that follows its own position, in order and without gap or repetition, no matter how far ahead other copies have read or which of them have been closed. Bytes are discarded only after each open copy has passed them.",
 ["histories","inputs"],"Any number of copies made at any positions, any interleaving of reads and closes.",
 "No test copies a buffered body, and every test source fits in one block.",["body/buffered.go"],
 [("start = minimum offset over registered bodies","updateStart"),("registration before Copy returns, removal on Close","ref, unref"),("window grows by appending what the source returned","Read")],
 [("start","stream offset of the first buffered byte","bufferedCommon"),("bytes","buffered window","bufferedCommon")])
p("B16","Payload bodies own the complete encoding",
 "FromJSON, FromPrettyJSON, FromProto, FromProtoText and FromString return a body that holds all of the encoded payload in memory that nothing else can modify later: not the caller, and not other users of the pooled buffer the encoding was made in. Pooled buffers are given back exactly once on every path, also when encoding fails, and are not used afterwards. A value that cannot be encoded, which for FromProto includes a message that lacks required fields, is reported by a panic with the encoder's error, never by an empty or partial body. FromPrettyJSON indents and FromJSON does not; FromProtoText encodes with exactly the options it is given, if any.",
 ["inputs","schedules"],"Every value, encoding failure and later use of the pooled buffer.",
 "One test encodes one small array with FromPrettyJSON.",["body/body.go"],
 [("copy out of the pooled buffer","fromJSONImpl"),("deferred bufferpool.Put","fromJSONImpl"),("[]byte(data) conversion","FromString")])
p("B17","Wrapping a reader measures it correctly or says why not",
 "FromReader returns a Body argument unchanged. Otherwise a new body starts at position 0 with the declared length if one was given, else the size from file metadata, else the end position found by seeking, else unknown; a reader that had to be measured by seeking is rewound to its start. If measuring fails the constructor returns no body and an error that wraps the reader's error, and it never reads from or closes the reader.",
 ["inputs","fault_sequences"],"All capability combinations, all declared lengths, all results of Stat and Seek.",
 "Tests use a mock whose Stat and Seek never fail and never pass an explicit length.",["body/body.go"],
 [("capability tests and measuring","FromReaderAndLength")])

W=["response/writer.go"]
p("R01","The response header is sent at most once, before any body byte",
 "Through a wrapped response writer at most one final status is ever sent to the underlying writer, whatever sequence of header, body, flush and stream calls is made. Body bytes, streams and flushes are preceded by it: an implicit 200 is sent if none was. A second explicit header call sends nothing, marks the writer as having seen an error and panics, while the conditional header call is then a no-op. (Informational 1xx statuses are not final and outside this claim.)",
 ["histories"],"All call sequences on each of the wrapper variants, with final status codes (200 to 999).",
 NOT,W,[("status != 0 guards","WriteHeader, MaybeWriteHeader"),("MaybeWriteHeader before forwarding","Write, ReadFrom, Flush")])
p("R02","Status, byte count and error flag match what was forwarded",
 "A wrapped response writer's Status is 0 until a status is sent and then the final status sent to the underlying writer; its BytesWritten is exactly the number of body bytes the underlying writer accepted; and SawError is true exactly when a body write or stream to the underlying writer failed or a second header call was made. Write and ReadFrom return what the underlying writer returned.",
 ["histories","fault_sequences"],"All call sequences and all results of the underlying writer, on each wrapper variant.",
 NOT,W,[("bytes/status/sawError updates","Write, ReadFrom, writeHeaderImpl")])
p("R03","Body bytes are never forwarded on bodiless responses",
 "For a HEAD request, or once status 204 or 304 has been sent, no body byte reaches the underlying writer; Write claims all bytes were written, ReadFrom drains its source, no bytes are counted and no error is invented. In all other cases the data is passed through unchanged.",
 ["inputs","histories"],"All requests, statuses and write sequences.",
 NOT,W,[("isHEAD / status test","Write, ReadFrom")])
p("R04","Wrapping a response writer keeps its capabilities and never over-promises",
 "Wrapping returns an already wrapped writer unchanged; otherwise the result wraps the given writer, offers flushing if the given writer offers it, offers connection hijacking, close notification and streaming as well if the given writer offers all of these with flushing, and offers none of these otherwise. Calls to the offered capabilities and to the header map reach the given writer and never panic for lack of support; server push reaches it if supported and otherwise returns http.ErrNotSupported.",
 ["configurations","inputs"],"All capability sets of the underlying writer.",
 NOT,W,[("capability tests in NewWriter","response/writer.go NewWriter"),("unchecked assertions on next","flushWriter, fancyWriter")])
p("R05","A built response always carries a status between 200 and 999",
 "Whatever methods were called on a builder, with whatever arguments, a response it builds has a status from 200 to 999, 200 if none was set, and otherwise the one set last. Status codes outside 200 to 999 (300 to 399 for redirects) are refused by a panic that leaves the builder's status as it was.",
 ["inputs","histories"],"All call sequences on a builder, all integer codes.",
 NOT,["response/builder.go","response/response.go"],[("range assertions","WithStatus, RedirectPage, ErrorPage"),("default 200","Build")])
p("R06","Build fills in only what is missing and empties the builder",
 "A built response has the builder's status, headers, body and error, plus Content-Type application/octet-stream if no Content-Type was present and Content-Length equal to the body's remaining bytes if no Content-Length was present and that count is known; headers that were present are not altered. Building without a body panics and changes nothing. After Build the builder has no status, headers, body or error, keeps its page generator, and shares no header map with the response.",
 ["inputs","histories"],"All builder states: any headers, any body, known or unknown length.",
 NOT,["response/builder.go"],[("default headers","Build"),("field reset","Build")])
p("R07","Copies of builders and given header maps are isolated",
 "A builder given a header map keeps a deep copy with the same entries; a copy of a builder has the same page generator, status, error and header entries and a copy of the body. Later changes to the given map, to the original's headers or to the copy's headers, including to the value lists, are never visible in the other. A copy of a response has the same status, headers and error and a copy of the body. Copying a builder or a response whose body cannot be copied returns that error and no copy.",
 ["histories","inputs"],"All header maps and later mutations.",
 NOT,["response/builder.go","response/response.go","response/util.go"],[("copyHeaders / copyStrings","response/util.go"),("copyBody","response/util.go")])
p("R08","Serving a response always closes its body exactly once",
 "Serve closes the response's body exactly once on every way out: success, failed push, failed copy, or a panic of the writer or body. Serve returns nil only if every push succeeded or was unsupported and copying and closing the body succeeded; otherwise it returns the first error that occurred.",
 ["fault_sequences"],"Every result, including panics, of every call Serve makes.",
 NOT,["response/response.go"],[("deferred close","Serve"),("error selection","Serve")])
p("R09","Serving emits pushes, all headers, the status and the body in order",
 "Serve sends every header of the response except Push with its values to the writer, then its status once, then its whole body, in this order. Each value of the Push header is pushed, before the status, if the writer can push, and the Push header itself is never sent. The response's own header map is not modified.",
 ["inputs"],"All header maps, bodies and writers.",
 NOT,["response/response.go"],[("header loop, WriteHeader, io.Copy","Serve")])
p("R10","Generated pages escape the location and hide the error",
 "The default redirect page carries the location, without surrounding white space, in the Location header, contains it in its HTML only in escaped form, as text or inside a quoted attribute value, and the default error page depends only on the status code and never on the error. For both, Content-Type names the kind of text and Content-Length equals the length of the generated body; an error page is marked so that caches do not reuse it. Afterwards the builder has the given code, the generated headers and body and, for an error page, the error. Headers and bytes of a page are made anew each time.",
 ["inputs"],"All locations, codes and errors.",
 NOT,["response/pagegen.go","response/builder.go"],[("html.EscapeString","GenerateRedirectPage"),("err unused in output","GenerateErrorPage")])
p("R11","Builder setters put the header they are named after",
 "Each setter of a builder changes exactly the header, status, body or error it is for and nothing else: payload setters store the encoded payload and its documented content type, header setters set, add or delete exactly the named header, and every setter returns the builder itself. Setters that refuse their argument by a panic leave the builder unchanged.",
 ["inputs","histories"],"All setters, arguments and builder states.",
 NOT,["response/builder.go"],[("hdrs.Set/Add/Del","With* methods")])
p("H01","A panicking handler never takes the server down or leaves no reply",
 "A panic in the wrapped handler, or in serving its response, never propagates out of the adaptor unless the panic hook itself panics. Whenever a request fails before a status was sent, status 500 is sent. The panic hook is called exactly once if there was a panic or serving failed, with the panic value if it is an error and otherwise with a PanicError holding it, after the reply and the metrics are done, and is not called otherwise.",
 ["inputs","fault_sequences"],"Every behaviour of the wrapped handler, the response body and the underlying writer.",
 NOT,["handler/adaptor.go","handler/onpanic.go"],[("deferred recover","Adaptor.ServeHTTP")])
p("H02","Every request is counted exactly once under the status that was sent",
 "For every request, whether its handler returns or panics, the adaptor adds exactly one observation to each of the request, latency, received-bytes and sent-bytes metrics, and one to the panic counter exactly if there was a panic. The code label is the status that was sent to the client, and the sent-bytes value is the number of body bytes the underlying writer accepted.",
 ["inputs","fault_sequences"],"Every behaviour of the wrapped handler and the underlying writer.",
 NOT,["handler/adaptor.go"],[("metrics in the deferred function","Adaptor.ServeHTTP")])
p("M01","The mock reader enforces its script call by call",
 "Every call on a mock reader, also a failing or concurrent one, consumes exactly the next scripted expectation. It panics with an ExpectationFailedError that names that position and expectation if the call is of another kind or has other arguments (for Read and ReadAt: another buffer length and offset), or if the script is exhausted; otherwise it returns exactly the scripted results and bytes. Each wrapper exposes exactly the optional capabilities its name encodes and forwards every call to the same call of the mock with the same arguments.",
 ["histories","inputs"],"All scripts and call sequences.",
 "The mock is only used as a helper; no test checks that it rejects a deviating call.",["internal/mockreader/mockreader.go","internal/mockreader/wrapper000.go"],
 [("next()","internal/mockreader/mockreader.go"),("Matches","internal/mockreader/mockreader.go"),("delegation","internal/mockreader/wrapper*.go")])
p("N01","Encoded payloads decode to the value they were made from",
 "Decoding the content of a body made by FromJSON, FromPrettyJSON, FromProto or FromProtoText yields a value equal to the one it was made from.",
 ["inputs"],"All encodable values.","One array is compared with one expected text.",["body/body.go"],[("encoding/json, protobuf","body/body.go")])
p("N02","Reading always makes progress",
 "Every Read, ReadAt or WriteTo on a body returns after finitely many calls to a source that eventually delivers data, an error or end of file, and a body that wraps a live stream does not wait for more data than the caller asked for.",
 ["schedules","inputs"],"All sources, including live ones.","Mock sources answer immediately.",["body/buffered.go","body/seeker.go"],[("fill loop","body/buffered.go Read")])
p("N03","Memory held for a buffered stream is bounded by the spread of its copies",
 "The bytes retained for a non-seekable source never exceed the distance between its slowest and its fastest open copy plus one read block.",
 ["histories"],"All histories of copies, reads and closes.","No test copies a buffered body.",["body/buffered.go"],[("reference count of bodies at the window start","advance, updateStart")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
