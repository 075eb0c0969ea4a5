#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 props.py > properties.jsonl)."""
import json
FS="src/storages/fs.rs"; SV="src/service.rs"; SIG="src/signature_v4.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":next((f for f in files if f in m),files[0])} for m in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    a["observe_at"]=observe or ["HTTP responses of the service","files below the storage root"]
    a["hook_needed"]="none: the simulator drives the public API and interposes the C library below it"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ONE="The existing service tests issue one request at a time against an idle server on a healthy disk; "
p("C01","Concurrent object operations are linearizable",
 "For any interleaving of object uploads, reads, metadata reads, copies and deletions by any number of clients, every response is explained by executing the requests one at a time in some order that respects real time, a copy counting as a read of its source followed by an upload of its target. Each successful read returns body, length, ETag and user metadata of one single stored version, never a mixture of two versions and never bytes that no writer sent.",
 ["schedules","histories"],"all interleavings of put/get/head/copy/delete by concurrent clients on shared keys, all body sizes",
 ONE+"two overlapping writers, or a reader overlapping a writer, need an interleaving inside one request.",
 [FS,SV],["put_object, get_object, head_object, copy_object and delete_object in src/storages/fs.rs","body streaming in src/data_structures/bytes_stream.rs"],
 [("object file","the bytes of an object at <root>/<bucket>/<key>"),("metadata file","user metadata of an object, a JSON file beside the bucket directories")])
p("C02","An upload that does not complete leaves the previous state untouched",
 "When an object or part upload ends without success, because the client disconnects, fewer bytes arrive than were declared, an integrity or signature check fails or the disk refuses a write, the target keeps its previous content, ETag and user metadata, or stays absent if it was absent. Nothing else changes either: no other object, bucket or listing is affected and no partial data remains on disk.",
 ["fault_sequences","inputs","schedules"],"all points at which the client can disappear or the body can end early, all disk write errors, with and without a previous version, concurrent readers included",
 ONE+"no test cuts a body short or fails a write.",
 [FS,"src/streams/aws_chunked_stream.rs",SV],["put_object / upload_part body streaming and commit","AwsChunkedStream error propagation"])
p("C03","A server crash loses nothing acknowledged and exposes nothing half-done",
 "After the server process dies at any instant and is started again on the same storage directory, every acknowledged bucket creation, upload, part upload, copy, multipart completion and deletion is still in effect. Every request that was not acknowledged has either taken full effect or none: an object reads back as one complete version, never truncated, mixed or with an ETag that does not match its bytes.",
 ["crash_points","histories","schedules"],"process death before, after or in the middle of any file-system call, under concurrent clients, followed by a restart on the surviving directory (the operating system itself keeps running)",
 "No test restarts the server or kills it inside a request.",
 [FS],["commit order of file operations in put_object, copy_object, complete_multipart_upload, upload_part, delete_object, create_bucket, delete_bucket"])
p("C04","ETags are the MD5 of the content and Content-MD5 is enforced",
 "The ETag returned by every upload, part upload, copy, multipart completion and read is the quoted hexadecimal MD5 of exactly the bytes of that object or part, however the body was cut into network segments and disk transfers. An upload that carries a Content-MD5 header that does not match its body is refused and stores nothing.",
 ["inputs","schedules","fault_sequences"],"all body sizes and segmentations, short reads and writes on disk, range reads, matching and mismatching Content-MD5 values",
 ONE+"they compare ETags of tiny bodies delivered in one piece, and never send Content-MD5.",
 [FS,"src/utils/crypto.rs","src/ops/put_object.rs"],["get_md5_sum","put_object and upload_part hash the stream while writing it"])
p("C05","A range read returns exactly the requested bytes of one version",
 "A read with a satisfiable byte range answers 206 with exactly the bytes the range selects from the object, clamped to its end, with matching Content-Length and Content-Range; a suffix longer than the object selects all of it. A range that selects nothing is refused with 416, and this also holds while the object is being replaced: the bytes belong to a single version.",
 ["inputs","schedules"],"all first/last/suffix forms relative to all object sizes including empty, under concurrent overwrites and short disk reads",
 ONE+"no service test requests a range; the unit test only parses the header.",
 [FS,"src/headers/range.rs","src/data_structures/bytes_stream.rs","src/ops/get_object.rs"],["range arithmetic in get_object","BytesStream limit"])
p("C06","Multipart completion yields the concatenation of the listed parts",
 "Completing a multipart upload creates the object whose content is the concatenation, in ascending part order, of the latest acknowledged content of exactly the parts listed, with the user metadata given when the upload was created. This holds whatever order, concurrency, repetition or delivery pattern the parts were uploaded with, and parts that are not listed contribute nothing.",
 ["schedules","histories","inputs"],"all orders and interleavings of part uploads, re-uploads of the same part, subsets of parts, part sizes including empty",
 "No test uploads a part.",
 [FS,"src/ops/upload_part.rs","src/ops/complete_multipart_upload.rs","src/ops/create_multipart_upload.rs"],["complete_multipart_upload assembly loop","upload_part storage"],[("part file","<root>/.upload_id-<id>.part-<n>")])
p("C07","Multipart uploads are isolated and fail without side effects",
 "Parts and completions only act on an upload that was created for that same bucket and key and is not yet completed; any other upload id is refused. A completion that is refused or fails, for example because a listed part is missing, its ETag differs or the order is not ascending, leaves the destination object and the uploaded parts as they were, so that a corrected completion still succeeds, and an upload in progress is never visible as an object, in listings, or to another upload.",
 ["histories","inputs","schedules","fault_sequences"],"all histories of create/upload part/complete over several concurrent uploads, with unknown, foreign and already completed ids, wrong part lists and disk errors during completion",
 "No test uses multipart uploads.",
 [FS,"src/ops/complete_multipart_upload.rs","src/ops/upload_part.rs"],["complete_multipart_upload validation","upload id handling"])
p("C08","Listings are complete, exact and sorted",
 "A listing of a bucket contains every object that existed throughout the request and no object that did not exist at some moment during it, each once, in ascending byte order of keys, with its true size, restricted to the requested prefix; the object list forms of both protocol versions agree. Keys with any legal characters come back exactly as uploaded in well-formed XML, internal files never appear, and concurrent uploads or deletions never make a listing fail.",
 ["schedules","inputs","histories"],"all sets of keys and prefixes, directory scan orders and batch sizes, concurrent puts and deletes during the scan",
 ONE+"one test lists a bucket with fixed keys while nothing else runs.",
 [FS,"src/ops/list_objects.rs","src/ops/list_objects_v2.rs","src/ops/list_buckets.rs","src/utils/xml.rs"],["list_objects and list_objects_v2 directory walk"])
p("C09","Bucket creation is exclusive and deletion is complete",
 "Of any number of concurrent creations of one bucket exactly one succeeds; a bucket exists, for every operation that asks, exactly from its successful creation to its successful deletion. After a bucket is deleted and created again it is empty and nothing of its former objects (content, user metadata, uploads in progress) can be seen, and operations on a bucket that does not exist are refused with NoSuchBucket (object reads: NoSuchKey or NoSuchBucket) and never create it.",
 ["schedules","histories"],"all interleavings of bucket creation, deletion, existence checks, bucket listing and object operations",
 ONE+"bucket creation races and delete-then-recreate histories are never run.",
 [FS,"src/ops/create_bucket.rs","src/ops/delete_bucket.rs"],["create_bucket, delete_bucket, head_bucket, get_bucket_location, list_buckets"])
p("C10","Distinct bucket and key names are independent objects",
 "Operations on one bucket and key never change, hide or reveal the content or user metadata of a different bucket or key, whatever characters the two names contain, including names that differ only in case, repeated or trailing slashes, dot segments, escapes or length. A name the server cannot store is refused with an error and changes nothing; it never aliases another object.",
 ["inputs","histories"],"all pairs of bucket/key names up to the length limit, histories of uploads, reads, copies and deletions on them",
 ONE+"all tests use one short alphanumeric key per bucket.",
 [FS,"src/path.rs"],["get_object_path, get_metadata_path","S3Path parsing"])
p("C11","No request reaches outside the storage root or its bucket",
 "No request, whatever path, key, upload id, copy source or form field it carries, makes the server read, create, change or delete any file outside the storage directory, nor a file of another bucket than the one it names, nor serve or overwrite the server's own bookkeeping files as objects.",
 ["inputs","histories"],"all byte strings in every attacker-controlled name position (path, key, upload id, part number, copy source, form key, delete list), raw and percent-encoded",
 "No test sends a hostile name.",
 [FS,"src/path.rs","src/headers/amz_copy_source.rs"],["absolutize_virtually in get_object_path / get_bucket_path / part paths"],None,["every file-system call the server makes","files outside and below the storage root"])
p("C12","With authentication on, only correctly signed requests have any effect",
 "When an authentication provider is configured, a request that is unsigned, signed with an unknown access key or a wrong secret, or altered after signing in its method, path, query, signed headers, amz headers or body, is refused and changes and reveals nothing. This holds for header, presigned-URL, chunked-upload and form authentication, and whatever the network does to the delivery of the request.",
 ["inputs","schedules"],"all single alterations of correctly signed requests in each authentication form, delivered with arbitrary segmentation and timing",
 "Unit tests check fixed signature vectors; no test sends an altered request through the service.",
 [SV,SIG,"src/headers/authorization_v4.rs","src/streams/aws_chunked_stream.rs","src/auth.rs"],["check_signature and its three branches","AwsChunkedStream chunk signatures"])
p("C13","A correctly signed request is always accepted",
 "With authentication configured, a request signed according to AWS Signature Version 4 with a registered key is never refused for its signature, whatever characters its key, query and headers contain, whichever of the authentication forms it uses and however it is segmented and timed on the network. Its effect and response are the same as those of the same request to a server without authentication.",
 ["inputs","schedules"],"all keys, query strings, header values, payload modes and segmentations; signatures computed by an independent implementation",
 "Unit tests check a handful of AWS example vectors with plain names.",
 [SV,SIG,"src/data_structures/ordered_qs.rs","src/data_structures/ordered_headers.rs"],["create_canonical_request, create_presigned_canonical_request, create_string_to_sign"])
p("C14","Chunk-signed uploads are decoded exactly and cannot be altered or cut",
 "A chunk-signed upload with valid signatures stores exactly the concatenation of its chunk payloads for every chunk sizing and every network segmentation. If any chunk is altered, dropped, repeated or reordered, or if the stream ends before the final empty chunk, the upload fails and the target object is unchanged.",
 ["inputs","schedules","fault_sequences"],"all chunk size sequences, segment boundaries (including inside chunk headers and CRLFs), truncation points and chunk mutations",
 "One unit test decodes one fixed stream; it never truncates or alters it.",
 ["src/streams/aws_chunked_stream.rs",SV],["AwsChunkedStream framing and signature chain"])
p("C15","Form uploads store exactly the submitted file, whatever the segmentation",
 "A correctly signed browser form upload stores exactly the bytes of the file field under the submitted key, byte for byte, for every segmentation of the request and any file content, including content that resembles the boundary. A form that is malformed, cut off before its closing boundary, or outside the conditions or expiry of its signed policy is refused and changes nothing.",
 ["inputs","schedules","fault_sequences"],"all file contents and sizes, boundaries, segment cuts (including inside boundary lines and part headers), truncation points and policy violations",
 "Unit tests parse a few fixed forms from memory in fixed pieces.",
 ["src/streams/multipart.rs",SV,"src/ops/put_object.rs"],["transform_multipart, FileStream","check_post_signature"])
p("C16","Signed requests are honoured only within their validity time",
 "By the server's clock, a presigned request is accepted from its signing time until its expiry and refused after it, also when its signing time lies more than fifteen minutes in the future or it asks for a validity of more than seven days, and a header-signed request is refused when its date is more than fifteen minutes away from the server's time. Refused requests have no effect, and clock jumps, slow delivery and retransmission of an old request do not change this.",
 ["schedules","inputs","fault_sequences"],"all expiry values, request ages before and after the limits, clock jumps in both directions, delayed and replayed requests",
 "No test involves a clock.",
 [SV,SIG,"src/headers/amz_date.rs"],["check_presigned_url expiry","check_header_auth date"])
p("C17","User metadata always belongs to the object version it was stored with",
 "Reading an object returns exactly the user metadata supplied with the upload that produced its current content: unchanged names and values, none if none was supplied, and never entries left over from an overwritten, deleted or copied-over predecessor, also when the bucket itself was deleted in between. A copy carries the source's metadata, or the request's when replacement is asked for.",
 ["histories","inputs","schedules"],"all histories of put/put-form/multipart/copy/delete with and without metadata on the same keys, all metadata values HTTP can carry",
 ONE+"no test stores metadata and then overwrites or deletes the object.",
 [FS,"src/ops/put_object.rs","src/ops/head_object.rs","src/ops/get_object.rs"],["save_metadata / load_metadata"],[("metadata file","<root>/.bucket-*.object-*.metadata.json")])
p("C18","Disk errors surface as errors, never as wrong answers",
 "While the disk fails, is full or runs out of descriptors, the server may answer with a server error or break the connection off, but it never acknowledges a change that did not happen, never reports an existing object or bucket as missing, and never returns wrong or silently shortened content. Once the disk works again every request works normally and all state not touched by a failed request is intact.",
 ["fault_sequences","schedules","histories"],"errors (EIO, ENOSPC, EMFILE, EACCES), short transfers and slow calls at any file-system call of any operation, once or persistently, under concurrent clients",
 "No test makes a file-system call fail.",
 [FS,"src/data_structures/bytes_stream.rs","src/utils/response.rs"],["error mapping of every storage operation","mid-body read errors in BytesStream"])
p("C19","Every request is answered; stalled clients harm nobody; nothing leaks",
 "Once faults stop, every request whose client stays connected is answered within a bounded number of steps, and clients that stall, read slowly or vanish in mid-request never delay or block other clients. When all requests have ended, no file descriptor, background task or temporary file of theirs remains.",
 ["schedules","fault_sequences"],"all schedules of concurrent requests with stalled, slow, half-closed and resetting clients, slow disks and small worker pools",
 ONE+"no test has a second client, let alone a stalled one.",
 [SV,FS,"src/streams/multipart.rs","src/streams/aws_chunked_stream.rs"],["body streaming and locking in storage operations","file handles in BytesStream"],None,["HTTP responses","open descriptors and temporary files after quiescence"])
p("C20","No byte sequence crashes the server or changes state by accident",
 "Whatever bytes a client sends, malformed, oversized or cut anywhere, the server process and its tasks never panic or hang, and a request that is not a valid operation is answered with a client error or closed, in well-formed HTTP and XML. Such traffic never changes stored data and never affects other clients.",
 ["inputs","schedules"],"mutations and truncations of all request kinds, random headers, query strings, XML bodies and forms, in arbitrary segmentation",
 "Tests send well-formed requests only.",
 [SV,"src/ops","src/streams","src/headers","src/utils/xml.rs"],["all request parsers"])
p("C21","Copying an object reproduces it exactly and leaves the source alone",
 "A successful copy gives the destination exactly the content of one version of the source, with the matching ETag in the answer, for every legal source and destination name (escaped or not, nested or not), across buckets and onto itself, while source and other objects stay unchanged. A copy that fails or whose source or destination bucket does not exist leaves the destination as it was.",
 ["inputs","histories","schedules","fault_sequences"],"all source/destination name pairs and sizes, copy onto itself, copies racing with overwrites and deletes of the source, disk errors during the copy",
 "No test copies an object.",
 [FS,"src/headers/amz_copy_source.rs","src/ops/copy_object.rs"],["copy_object","AmzCopySource parsing"])
p("C22","A batch deletion deletes exactly the listed keys and reports truthfully",
 "After a successful batch deletion no listed key exists and every other object is intact. The answer names every listed key exactly once, as deleted (also when it was already absent) or with an error, a key reported as deleted really is, one undeletable key does not stop the others, and quiet mode omits only the successes.",
 ["inputs","schedules","fault_sequences"],"all key lists (absent keys, keys naming directories, special characters, duplicates) with concurrent deletions and disk errors",
 "No test sends a batch deletion.",
 [FS,"src/ops/delete_objects.rs"],["delete_objects"])
p("C23","Responses do not depend on how requests are delivered",
 "The same sequence of requests gives the same responses and the same final state whether each arrives in one piece or byte by byte, slowly or at once, on fresh, kept-alive or pipelined connections, with a declared length or chunked transfer coding, and however slowly the client reads the answers. Every response is complete, with correct framing, and answers the request it belongs to.",
 ["schedules","inputs"],"all segmentations, delays, window sizes, pipelining depths and read speeds for the same request sequence",
 "Tests call the service in process with whole bodies; no bytes travel over a connection.",
 [SV,"src/data_structures/bytes_stream.rs","src/streams","src/utils/body.rs"],["hyper service entry point","body stream adapters"])
p("C24","Unsupported operations are refused, never executed as something else",
 "A request for an S3 operation or sub-resource that the server does not implement (such as access control lists, tagging, versioning, policies, lifecycle, aborting or listing multipart uploads, or copying a part) is refused with an error. It never overwrites, deletes, creates or returns an object or bucket as if the sub-resource had not been named.",
 ["inputs","histories"],"all S3 sub-resource names and methods on buckets and objects, in populated and empty stores, combined with ordinary parameters",
 "Tests only send supported operations.",
 ["src/ops",SV,"src/ops.rs"],["is_match of every handler"])
p("C25","Modification times tell when the content was stored",
 "The modification time that reads, metadata reads, listings and copy results report for an object lies, on the server's clock, within the execution of the request that stored the content they show (to the resolution of the storage; at most one second later when versions follow each other within that resolution), and a bucket's creation date within the request that created it. All answers agree on the time of one version, in a valid format, whatever the time zone; it changes only when the object is stored anew and survives restarts.",
 ["histories","schedules","fault_sequences"],"all sequences and interleavings of uploads, form uploads, copies, completions, deletions and reads with clocks that jump either way, coarse file times, file systems without times of creation, a local time zone that is not UTC, disk errors and crashes",
 "Tests run at whatever the time is, in one zone, and look at no time.",
 [FS,"src/utils/time.rs","src/ops/get_object.rs","src/ops/head_object.rs","src/ops/copy_object.rs"],["modification times in commit_object, get_object, head_object, copy_object, list_objects and list_buckets of src/storages/fs.rs","conversions in src/utils/time.rs"])
p("C26","Errors tell what went wrong and whose fault it is",
 "Every error answer carries the HTTP status S3 documents for its error code and, except to HEAD, a well-formed XML error document with that code. A mistake of the client is answered with a 4xx (or 501) code that names it, whatever the interleaving, delivery or authentication: NoSuchBucket, NoSuchKey, NoSuchUpload, InvalidPart, InvalidPartOrder, BadDigest, InvalidDigest, InvalidRange, InvalidStorageClass, a 409 for an existing bucket, 403 for a bad signature, key or time. A failure of the server's disk or authentication service is answered with a 5xx code and never blamed on the client, nor a client's mistake on the server, so that clients that retry by status neither repeat what cannot succeed nor give up on what can.",
 ["inputs","histories","schedules","fault_sequences"],"every mistake of the other properties' requests, alone, racing with other clients, and while the disk or the authentication service fails",
 "Tests look at three error answers of an idle server with a working disk.",
 ["src/errors.rs",SV,FS,"src/utils/body.rs","src/internal_macros.rs"],["as_status_code","error mapping in src/storages/fs.rs, src/service.rs and src/utils/body.rs"])
p("C27","Content streams through bounded memory",
 "Uploads (with a plain, presigned or unsigned payload, in signed chunks, as a part or in a form), downloads, ranges, copies, completions of multipart uploads and listings of objects of any size take memory for a few buffers per request, however large the object is, however slow the client, its network or the disk are, and whether the request succeeds, is cut off or fails; and when the requests have ended that memory is free again. So the size of an object is bounded by the disk and not by memory, and a few large or slow transfers do not take the server down. (A body whose digest is part of the signature of its request has to be read before the request can be trusted, a signed chunk before it can be stored; both are held whole.)",
 ["inputs","histories","schedules","fault_sequences"],"every object size, pace of client, network and disk, cut and failure",
 "Tests transfer a few bytes; nothing in them looks at memory or holds back a reader.",
 [FS,SV,"src/streams/aws_chunked_stream.rs","src/streams/multipart.rs","src/data_structures/bytes_stream.rs"],["copy_bytes, get_md5_sum and get_object in src/storages/fs.rs","BytesStream","AwsChunkedStream","check_header_auth in src/service.rs","file part in src/streams/multipart.rs"])
for x in P: print(json.dumps(x))
