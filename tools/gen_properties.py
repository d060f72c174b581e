#!/usr/bin/env python3
"""Source of properties.jsonl (one P(...) per property); run to regenerate."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
L = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    L.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook,
                     **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))

P("P01", "A message sent through the library arrives unchanged, once and in order",
  "Every hello, initialize, frame, status and quit that one side sends through the library reaches the other side exactly once, in order, with the same images, regions and properties, whatever bytes (other than NUL) the values contain. "
  "This holds over pipes and over TCP sockets, however the byte stream is cut into reads and writes, and whatever ordinary program output stands on lines of its own between the messages.",
  ["inputs", "schedules"], "all values of images, regions and properties; all segmentations of the byte stream; all interleavings of foreign lines",
  "The tests play one fixed static tracker over a few frames with plain values; escaping, 8-bit bytes, chunk boundaries inside escapes and foreign output are never exercised.",
  ["src/message.c", "src/trax.c", "src/strmap.h"],
  [("write_message / write_buffer_escaped", "src/message.c"), ("read_message state machine", "src/message.c"), ("trax_client_*/trax_server_* senders and receivers", "src/trax.c")],
  ["return values and out-parameters of trax_client_wait / trax_server_wait in both endpoints of one session"])

P("P02", "Incoming bytes are interpreted exactly as the protocol grammar says",
  "For every incoming byte stream the library reports exactly the messages the protocol grammar defines: arguments and properties are unescaped, quoted and unquoted forms mean the same, and keys are told from plain arguments by the key grammar. "
  "A line without the prefix, or a malformed or unknown message, is skipped up to its own line end and contributes nothing to the messages before or after it, and a message that the end of the stream cuts off is never reported.",
  ["inputs"], "all byte streams without NUL and carriage return, in all segmentations",
  "The tests only feed the parser the output of the library's own writer; malformed and hand-written lines, which trackers in other languages produce, are never parsed.",
  ["src/message.c"],
  [("read_message", "src/message.c"), ("__is_valid_key / __parse_message_type", "src/message.c")],
  ["sequence of message types, images, regions and properties returned by wait calls, compared with a reference parser"],
  state=[("input.state", "position in the line grammar", "src/message.h")])

P("P03", "Everything written to the peer is well-formed protocol text",
  "Every byte the library writes to the peer belongs to a message that is exactly one line: the prefix, a known message name, and then quoted arguments and properties in which quotes, backslashes and newlines are escaped and keys are valid and not repeated. "
  "The arguments are the ones the protocol prescribes for the message (image per channel and then region for frames and initialization, one region per object for a status, none for hello and quit), so no property value or file name can forge another message, argument or property.",
  ["inputs", "histories"], "all sequences of calls with all property keys and values, image names and regions",
  "Tests check only that the two halves of the same library understand each other for benign values, never the bytes on the wire.",
  ["src/message.c", "src/trax.c", "src/strmap.h"],
  [("write_message", "src/message.c"), ("write_buffer_escaped", "src/message.c"), ("key validation", "src/message.c, src/trax.c")],
  ["raw bytes captured at the transport"])

P("P04", "A session follows the protocol order, and misuse is an error not a message",
  "Across every history of calls and peer messages, each call returns the outcome the session rules prescribe: a received message that the side never accepts or that is illegal in the current phase (a frame before any initialization) is an error, calls on a terminated session are errors, and a call that is refused sends nothing and changes nothing. "
  "At most one quit is sent per side, a quit from the peer ends the session and delivers its reason and properties, and an error text is available after a failed call and absent after a successful one. What a wait delivers is set when there is something to deliver and NULL otherwise, whatever the caller kept there before.",
  ["histories"], "all finite histories of API calls on either side interleaved with all messages the peer may send",
  "Tests drive the happy path plus a handful of crashing trackers; the set of call/message orders is unbounded.",
  ["src/trax.c", "include/trax.h"],
  [("trax_client_wait/initialize/frame", "src/trax.c"), ("trax_server_wait/wait_sot/wait_mot/reply", "src/trax.c"), ("trax_terminate / set_error / clear_error", "src/trax.c")],
  ["return codes, trax_is_alive, trax_get_error, bytes on the wire"],
  state=[("flags", "valid, terminated, server", "include/trax.h"), ("error / error_message", "text of the last failure", "src/trax.c")])

P("P05", "The handshake gives the client the capabilities that the tracker declared",
  "Whatever protocol version, image formats, region formats, channels, name, family, description and custom properties a tracker declares are what the client sees after connecting, for every combination of them. "
  "Where a hello leaves a declaration out the documented defaults apply, and a peer that is not a compatible tracker (no hello, another message first, a hello with arguments, a broken stream) makes the connection fail cleanly instead of producing a session. Either side waits for the other as long as it is told to, interrupted or not, and not longer.",
  ["configurations", "inputs"], "all combinations of declared capabilities and all hello messages, of all protocol versions",
  "The tests use one declaration per tracker and never an incomplete or foreign hello.",
  ["src/trax.c"],
  [("server_setup hello construction", "src/trax.c"), ("client_setup hello parsing", "src/trax.c"), ("trax_metadata_create", "src/trax.c")],
  ["trax_handle version and metadata in the client, and the return value of the setup calls"])

P("P06", "Multi-object sessions keep every object's region and properties apart",
  "In a multi-object session the tracker receives every object the client adds, each with its own region and properties and in order, in the initial message and in any later one, and the client receives the tracker's answer for every object likewise. "
  "Object counts always agree with what is alive in the session, a reply with the wrong number of objects is refused, and the client refuses to start or add more than one object if the tracker did not declare multi-object support.",
  ["histories", "inputs"], "all histories of initialisations, frames with added objects and replies; all object counts and values",
  "The test suite has no multi-object session.",
  ["src/trax.c"],
  [("trax_server_wait_mot", "src/trax.c"), ("trax_client_initialize_mot / frame", "src/trax.c"), ("trax_client_wait object handling", "src/trax.c")],
  ["object lists on both ends"])

P("P07", "Images arrive with identical kind, format, size, channels and bytes",
  "An image of any supported kind (file path, URL, encoded buffer, raw memory of any pixel format, width and height) is delivered to the other side with the same kind, format, dimensions and every byte the same, for one or several channels. "
  "Writing and reading rows through the image accessors touches exactly the addressed pixels, a request that lacks an image for a declared channel is refused before anything is sent, and an image of a kind that the tracker did not declare is refused by the tracker's side.",
  ["inputs", "configurations"], "all image kinds, formats, sizes, contents and channel combinations",
  "Tests compare a few image files of one size; sizes not divisible by three (Base64 padding), 16-bit rows, non-ASCII paths and multi-channel mixes are not covered.",
  ["src/trax.c", "src/base64.c"],
  [("image_encode / image_decode", "src/trax.c"), ("trax_image_* accessors", "src/trax.c"), ("base64", "src/base64.c")],
  ["image accessors on both ends"])

P("P08", "No input from the peer can corrupt memory, abort or hang the process",
  "Whatever bytes a peer sends, and however it stops sending, the library neither reads nor writes outside its memory, nor executes undefined behaviour, nor aborts, nor loops without consuming input: every wait ends with a message or an error, and the session can be cleaned up. "
  "Regions, images, numbers and properties extracted from such messages are safe to hand to every public function of the library.",
  ["inputs", "fault_sequences"], "all byte streams, valid, mutated and hostile, and all points at which the stream ends",
  "The tests never send a malformed message; memory errors need inputs nobody thought of.",
  ["src/message.c", "src/trax.c", "src/region.c", "src/base64.c"],
  [("read_message", "src/message.c"), ("image_decode", "src/trax.c"), ("region_parse", "src/region.c")],
  ["sanitizer reports, process exit, allocation growth"])

P("P09", "Region text form round-trips and follows the documented grammar",
  "Printing a region and parsing the text gives the same region: the same type, special code, mask geometry and pixels, and coordinates within the printed precision. "
  "Text is accepted exactly when it is a documented form (code, rectangle, polygon of at least three points, or run-length mask of positive size with non-negative run lengths, of which those beyond its size are ignored; a list with an undefined value, NaN, stands for the special region zero or, among four values, for the negated last one) and then has the documented meaning; other text is rejected without side effects.",
  ["inputs"], "all regions and all texts",
  "One library test parses a few fixed strings.",
  ["src/region.c"],
  [("region_parse", "src/region.c"), ("region_string", "src/region.c")],
  ["trax_region_encode / trax_region_decode"])

P("P10", "Region conversion, bounds and containment agree with geometry",
  "The bounds of a region are the tightest box around its points or set pixels, converting to a rectangle gives that box, converting a rectangle to a polygon gives its corner pixels, and converting a polygon or rectangle to a mask sets exactly the pixels that rasterisation of the shape covers, within its bounds. "
  "A point query answers consistently with the same geometry for every kind of region, in and outside the bounds, and conversion never alters its source.",
  ["inputs"], "all regions of each type and all conversion targets, points and offsets, including negative and fractional coordinates",
  "The one region test checks overlap of some loaded files only.",
  ["src/region.c", "src/trax.c"],
  [("region_convert", "src/region.c"), ("region_bounds", "src/region.c"), ("region_contains_point", "src/region.c")],
  ["trax_region_convert / trax_region_bounds / trax_region_contains"])

P("P11", "Region overlap is intersection over union on pixels",
  "The overlap of two regions is the number of pixels both cover divided by the number of pixels either covers, within the requested bounds, for every mix of rectangles, simple polygons and masks wherever they lie. "
  "Hence it is symmetric, lies between zero and one, is one for a non-empty region with itself, zero for disjoint regions, and unchanged when both move by the same whole number of pixels; regions of another kind give zero.",
  ["inputs"], "all pairs of regions and all bounds",
  "One library test compares some stored polygons; degenerate, thin, distant, negative and clipped geometry is not sampled.",
  ["src/region.c", "src/trax.c"],
  [("region_compute_overlap", "src/region.c"), ("rasterize_polygon / rasterize_mask", "src/region.c"), ("trax_region_overlap", "src/trax.c")],
  ["trax_region_overlap against a pixel-set reference"])

P("P12", "Properties behave as a dictionary of strings",
  "A property set is a map from valid keys to text: a get returns a copy of the last value set, integer and float accessors agree with the stored text and fall back to the given default, and counting and enumeration show each key exactly once. "
  "Setting, overwriting, clearing, copying and appending affect precisely the entries they name, for every key, value and number of entries, and an invalid key is never stored.",
  ["histories", "inputs"], "all sequences of operations over all keys and values",
  "Tests set two or three short keys.",
  ["src/strmap.h", "src/trax.c", "src/traxpp.cpp"],
  [("strmap", "src/strmap.h"), ("trax_properties_*", "src/trax.c"), ("trax::Properties", "src/traxpp.cpp")],
  ["return values of the accessors against a model dictionary"])

P("P13", "Image and object lists hold what was put in them and own it",
  "An image list keeps one image per channel and an object list one region and one property set per object: reading a slot gives what was last stored there, counts and channel masks match the contents, other slots are unaffected, and out of range access yields nothing. "
  "A list and what it hands out can be released in any documented order without leaking, or freeing anything twice.",
  ["histories"], "all sequences of list operations",
  "Tests use lists of one colour image or two fixed channels.",
  ["src/trax.c"],
  [("trax_image_list_*", "src/trax.c"), ("trax_object_list_*", "src/trax.c")],
  ["accessor results, live allocation after release"])

P("P14", "C++ wrappers have value semantics: copies are independent, nothing leaks",
  "Copying, moving, assigning (including to itself), swapping and destroying the C++ objects in any order never leaks, double-frees or uses freed memory, and a moved-from or empty object stays safe to use. "
  "Changing one object through its interface is never visible through another object that was copied from it, nor in what is sent from it. Operations on a handle without a session are refused, and several objects are never received as one region through the interface for a single object.",
  ["histories", "programs"], "all programs made of construction, copy, move, assignment, mutation and destruction of the wrapper classes",
  "Tests construct each class in one or two ways.",
  ["src/traxpp.cpp", "include/trax.h"],
  [("Wrapper acquire/release/cleanup", "src/traxpp.cpp"), ("Region/Image/ImageList/ObjectList/Properties/Bounds/Handle", "src/traxpp.cpp")],
  ["values read back from every live object, allocator state, sanitizers"])

P("P15", "A session gives back all memory and descriptors, however it ends",
  "Once a session has been cleaned up, all heap memory and file descriptors that the library obtained for it are released, whichever way it went: normal end, refused or failed handshake, illegal message, peer death, reinitialisation, or termination by either side. "
  "Objects handed to the caller stay valid after the session is gone and are released by their own release calls.",
  ["histories", "fault_sequences"], "all session histories and end points",
  "The tests end processes, so leaks vanish with them.",
  ["src/trax.c", "src/message.c"],
  [("trax_cleanup", "src/trax.c"), ("destroy_message_stream", "src/message.c")],
  ["bytes allocated and open descriptors before and after each session"])

P("P16", "The log shows every byte that crossed the wire, in order",
  "With logging on, the log receives exactly the bytes received and sent by the session in the order of processing, followed by a flush after every message, and a session without a log callback writes no log. "
  "Logging never changes what is sent or reported.",
  ["inputs", "configurations"], "all sessions and logger kinds",
  "No test inspects a log.",
  ["src/message.c", "src/trax.c", "src/debug.h"],
  [("LOG_CHAR / LOG_BUFFER", "src/message.c, src/message.h"), ("trax_logger_setup", "src/trax.c")],
  ["the logger callback compared with a transport tap"])

P("P17", "Partial, interrupted or failing I/O never corrupts or invents messages",
  "Short reads, short writes and interruption by signals at any point are invisible: the same messages arrive. "
  "When the connection breaks or fails at any byte, the messages completed before that are delivered intact, every later receive reports an error, nothing partial is delivered or completed by later messages, and the process is not killed or left spinning on the library's socket.",
  ["fault_sequences", "crash_points"], "all fault kinds at every read and write of a session, and a break after every byte",
  "The tests run on healthy pipes only.",
  ["src/message.c", "src/trax.c"],
  [("read_character / write_buffer", "src/message.c")],
  ["API outcomes under injected system call results"])

P("P18", "A tracker process's death, silence or exit is always noticed and cleaned up",
  "Whatever a tracker process does (exits, crashes, is killed, closes its streams, hangs, never connects, floods its outputs) at any stage of the session and in every connection mode, the client's calls return within the configured timeout: every reply that was asked for while the tracker lived is returned, and every later call fails. "
  "Afterwards the tracker process that was launched is gone and no zombie, descriptor or thread of the session remains.",
  ["fault_sequences", "crash_points", "configurations"], "all failure kinds at every protocol step, over all connection modes and timeouts",
  "A few tests abort or crash one tracker at fixed frames over the default connection, and do not look for what is left behind.",
  ["support/client/client.cpp", "support/client/process.cpp", "support/client/threads.cpp"],
  [("TrackerProcess::State watchdog", "support/client/client.cpp"), ("Process", "support/client/process.cpp")],
  ["exceptions and results, /proc children, descriptors and threads"])

P("P19", "The tracker is launched with exactly the command and environment given",
  "The launched process sees exactly the arguments that the documented quoting rules give for the command line, exactly the requested working directory, the requested environment variables with their values, and otherwise the environment of its parent, also when several trackers are launched at once from different threads; none of them gets the streams of another one. "
  "A command that cannot be parsed or started is reported as a failure and leaves nothing behind.",
  ["inputs", "configurations"], "all command strings, argument contents, environment maps and directories",
  "Tests launch one fixed command with no special characters.",
  ["support/client/process.cpp", "support/client/client.cpp"],
  [("parse_command", "support/client/process.cpp"), ("Process::start", "support/client/process.cpp")],
  ["argv, environ and cwd recorded by a probe program"])

P("P20", "The client's tracker supervision is free of data races and deadlocks",
  "While the supervising threads (watchdog, log forwarding) run beside the calling thread, all shared state is accessed with synchronisation and every call terminates, whichever of them notices the end of the tracker first. "
  "This includes resetting, destroying and restarting trackers at any moment.",
  ["schedules"], "all interleavings of the caller, the watchdog, the log forwarder and tracker death",
  "The tests sample one schedule per run, without a race detector.",
  ["support/client/client.cpp", "support/client/threads.cpp"],
  [("TrackerProcess::State mutex and condition", "support/client/client.cpp"), ("Thread, Mutex, Signal, Condition", "support/client/threads.cpp")],
  ["ThreadSanitizer reports under schedule perturbation, completion of every call"])

P("P21", "Separate sessions and objects in separate threads do not disturb each other",
  "Sessions, regions, images and property sets which are not shared may be used from different threads at once, on either side, with the same results as when used one after another.",
  ["schedules"], "all interleavings of threads that each use their own objects",
  "No test uses more than one thread.",
  ["src/trax.c", "src/region.c", "src/message.c"],
  [("absence of shared mutable state", "src/*.c")],
  ["ThreadSanitizer reports and equality with single-threaded results"])

P("P22", "Region files and streams give back the regions that were stored",
  "Reading regions from a text stream or trajectory yields one region per line, in order and equal to what was written, for every region kind and for any line end, with or without one after the last line; an empty or unreadable line is reported as an empty region rather than as some other region. "
  "Writing produces exactly one line per region.",
  ["inputs"], "all sequences of regions and line contents",
  "Tests load one ground-truth file.",
  ["src/traxpp.cpp", "support/client/client.cpp"],
  [("operator>> / operator<< for Region and Properties", "src/traxpp.cpp"), ("load_trajectory / save_trajectory", "support/client/client.cpp")],
  ["regions read back"])

P("P23", "The command-line client's exit code and output files tell the true outcome",
  "The command-line client exits with success exactly if the tracker completed the whole sequence, and its output file then has one entry per frame: the initialisation and the regions the tracker reported, in order, under every combination of its documented options. "
  "When the tracker fails, times out or misbehaves at any frame the exit code says so.",
  ["configurations", "fault_sequences"], "all option combinations, sequences and tracker behaviours",
  "Tests check the exit status of a handful of runs, never the output files.",
  ["support/client/cli.cpp", "support/client/client.cpp"],
  [("main loop of traxclient", "support/client/cli.cpp")],
  ["exit status, trajectory and timing files, tracker-side log"])

P("P24", "The Python binding behaves as the C library does",
  "A Python tracker or client exchanges the same images, regions, object lists, properties and metadata as one written in C, with either side in either language, for every image kind, channel set and region type. "
  "Values read in Python equal the values sent, failures surface as exceptions, and no native object is leaked or freed twice.",
  ["inputs", "configurations"], "all values exchanged by Python and C endpoints",
  "The Python tests run one static tracker over a few images.",
  ["support/python/trax"],
  [("Server / Client / Image / Region classes", "support/python/trax"), ("_ctypes binding", "support/python/trax/_ctypes.py")],
  ["values on both ends of mixed sessions"])

P("P25", "OpenCV conversions preserve pixels and geometry",
  "Converting an image or region between the library's types and OpenCV's and back preserves size, pixel values in the right channel order and geometry, for every format, size and continuity of the matrix.",
  ["inputs"], "all formats, sizes and contents",
  "No test touches the conversions.",
  ["support/opencv/opencv.cpp"],
  [("image_to_mat / mat_to_image / region_to_rect / ...", "support/opencv/opencv.cpp")],
  ["values before and after"])

P("P26", "The Octave/Matlab binding behaves as the C library does",
  "A tracker or client written for Octave or Matlab exchanges the same images, regions and properties as one written in C, and its failures surface as errors of that environment.",
  ["inputs", "configurations"], "all values exchanged by Octave and C endpoints",
  "Octave tests run one static tracker; the client binding does not load at all on this tree.",
  ["support/matlab"],
  [("helpers and mex entry points", "support/matlab")],
  ["values on both ends of mixed sessions"])

P("P27", "Output of the tracker program is captured fully and never taken for protocol",
  "Every line a tracker writes to its error stream, and to its output stream if messages travel over a socket, reaches the client's log once and in order (overlong lines may be cut), without blocking the tracker or the session whatever the volume. "
  "Such output never affects the messages that are reported.",
  ["schedules", "inputs"], "all volumes, chunkings and timings of the output",
  "The tests' trackers print almost nothing.",
  ["support/client/client.cpp", "support/client/process.cpp"],
  [("logger loop", "support/client/client.cpp")],
  ["log callback contents against what the tracker recorded"])

with open(OUT, "w") as f:
    for r in L:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(L), "properties")
