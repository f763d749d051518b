#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

M, T, R, SM, X = "src/message.c", "src/trax.c", "src/region.c", "src/strmap.c", "src/traxpp.cpp"
B = "src/buffer.h"
C, PR = "support/client/client.cpp", "support/client/process.cpp"

p("C01", "Message content survives transport unchanged",
  "Everything one endpoint puts in a message (positional data and named properties of the hello, initialize, frame, state and quit messages) is received by the other endpoint with exactly the same content, in the same order for positional data. This includes spaces, quotes, backslashes, newlines, equals signs, control and non-ASCII bytes, empty values, and values and messages of any length.",
  ["inputs", "histories"], "every property key of up to 64 legal characters, every NUL-free value, any number of properties, every message kind, both directions",
  "The tests send a handful of fixed short ASCII properties; escaping, buffer growth and byte-range faults need arbitrary content.",
  [M, B, T, SM], [("escape on write, unescape on read", "write_buffer_escaped / read_message in src/message.c"), ("growing buffers", "src/buffer.h")],
  ["the properties and images a server gets from wait, a client gets from wait"])
p("C02", "Delivery does not depend on how the byte stream is fragmented",
  "For a given sequence of messages the receiver reports the same requests, replies, contents and errors however the bytes are split into individual reads, however few bytes each write accepts, and whether the channel is a pair of streams or a TCP socket.",
  ["schedules", "inputs"], "every partition of the byte stream into reads and of the output into writes, including one byte at a time and splits at buffer boundaries",
  "The tests run over local pipes where a message nearly always arrives in one read; partial reads and writes are never produced.",
  [M], [("read buffer refill and parser state kept across reads", "read_character / read_message"), ("write loop", "write_buffer")])
p("C03", "Foreign output on the channel is ignored",
  "Lines that do not begin with the protocol prefix, or carry it without a known message name (ordinary program output, prefix look-alikes, prefix in the middle of a line, binary garbage, empty lines), may be mixed in between protocol messages in any amount. The receiver reports exactly the same messages with exactly the same content as without them.",
  ["inputs", "histories"], "any set of non-protocol lines placed before, between and after any messages, in either direction",
  "The tests' trackers print at most a few clean lines; near-prefix lines and lines next to message boundaries are not sampled.",
  [M], [("prefix automaton and skip-to-end-of-line state", "read_message")])
p("C04", "Every documented spelling of a message is understood alike",
  "A message may be spelled with quoted or unquoted arguments, extra spaces between arguments, any letter case of the message name, properties before or after positional arguments, escape sequences in either style of argument, and a carriage return after the space that follows the last argument or the message name: the receiver obtains the same kind, positional arguments and properties. Text before an equals sign that is not a legal property key (over 64 characters, or with other characters than letters, digits, dot and underscore) makes the whole argument positional.",
  ["inputs"], "all messages of the documented grammar and all their spellings",
  "Only the library's own single canonical spelling is ever exercised by the tests.",
  [M], [("message grammar automaton", "read_message"), ("key validation", "__is_valid_key")])
p("C05", "A broken-off stream yields only what was completely received, then an error",
  "If the stream ends at any byte, the receiver delivers each message that was completely received exactly as without the break, and never delivers a quoted value or property that was only partly received. It then reports an error with an error message (or the termination that was completely received) after a bounded number of calls; no call waits or loops forever and nothing is leaked.",
  ["crash_points", "histories"], "every session prefix: the peer dies after any byte of any sequence of messages, on both the server and the client side",
  "The bad-tracker tests kill the tracker between messages at two fixed frames; a cut inside a message is never produced.",
  [M, T], [("end of stream handling", "read_message"), ("error paths", "trax_server_wait_sot/_mot, trax_client_wait")])
p("C06", "Hostile bytes cannot crash, hang or corrupt an endpoint",
  "Whatever bytes the peer sends, every call on the endpoint returns one of its documented results, with an error message if it failed; it never crashes, aborts, reads or writes outside its memory, runs forever or leaks. Any image, region or object it does hand out is well formed: an image has a type that was announced, a region has a documented type, and both can be inspected, encoded again and released.",
  ["inputs", "histories"], "arbitrary and structure-aware mutated byte streams fed to a client at handshake and reply, and to a server at every request, for all protocol versions and capabilities",
  "No test feeds malformed input; the input space is unbounded.",
  [M, T, R, "src/base64.c"], [("argument count checks, decoders", "trax_server_wait_*, trax_client_wait, client_setup, image_decode, region_parse")])
p("C07", "The client sees exactly the capabilities the tracker announced",
  "After the handshake the client reports exactly the protocol version, region formats, image formats, channels, multi-object support, name, family, description and custom properties the tracker announced, with the documented defaults for what a hello message leaves out (version 1, file paths, rectangles, colour channel, single object). A tracker's reserved settings never appear among the custom properties, and a stream that does not start with a hello message, or whose hello has positional arguments, is refused.",
  ["configurations", "inputs"], "all combinations of formats, channels, versions and flags, arbitrary names and custom properties, hello messages with any subset of the settings",
  "Each test uses one fixed capability set.",
  [T], [("hello encoding and decoding", "server_setup, client_setup, *_formats_encode/decode, channels_encode/decode")])
p("C08", "Multi-object sessions: requests and replies match one to one",
  "In a version 4 session, for every legal sequence of initializations, frames, objects added on the way and re-initializations, the server sees exactly the requests the client issued, in order, with the same objects, per-object properties and images, and the client gets exactly one state per tracked object, in order, with the region and properties the server replied. Both sides always agree on the number of tracked objects: a reply is accepted exactly when it has one state for each of them, and only a multi-object tracker can have more than one.",
  ["histories"], "all interleavings of initialize, frame, frame with new objects, re-initialize with any object counts, single- and multi-object trackers, all channel sets",
  "Tests only track one object with one initialize followed by frames.",
  [T], [("object counting", "trax_client_initialize/frame/wait, trax_server_wait_mot/reply_mot")])
p("C09", "Legacy single-object sessions work in every older version",
  "With a tracker that speaks version 1, 2 or 3, for every sequence of initializations and frames the server sees exactly the requested images, region and properties and the client gets exactly the region and properties replied. The client accepts exactly one object at initialization and none later.",
  ["histories", "configurations"], "all sequences of initialize and frame, versions 1 to 3, all channel and format sets",
  "The tests exercise one version with a single initialization.",
  [T], [("legacy mode", "trax_client_initialize/frame, trax_server_wait_sot, trax_server_reply_sot")])
p("C10", "Refused calls report an error and change nothing",
  "A call that is not allowed in the current state (no objects, too many objects, a missing channel image, wrong number of replies, a call for the other protocol mode, a handle that has terminated) returns an error with a readable message, sends nothing to the peer and leaves the session exactly as it was. The same session then carries on as if the refused call had never been made, and a call that succeeds leaves no stale error message.",
  ["histories"], "all legal histories with refused calls of every kind inserted anywhere",
  "No test makes an illegal call.",
  [T], [("precondition checks and error text", "set_error and the checks in trax_client_*, trax_server_*")])
p("C11", "Termination is sent once, delivers its reason and is final",
  "When either side ends the session, the other side's next wait reports termination, exactly one quit message is sent, and a client is given the reason the tracker stated. From then on each side reports not being alive, further requests, waits and replies fail without sending anything, terminating again is harmless, and cleanup works in every state and releases everything.",
  ["histories"], "termination or cleanup by either side, with any reason text, at every point of every session, in any version",
  "Tests always terminate from the client, without a reason, at the end.",
  [T], [("terminated flag", "trax_terminate, trax_cleanup, HANDLE_ALIVE checks")])
p("C12", "Images arrive byte for byte, in every channel and encoding",
  "An image passed as file path, URL, raw pixels (8-bit, 16-bit, RGB) or encoded buffer arrives with the same type, format, size and bytes, on the channel it was sent for. Channels the tracker did not ask for are not sent, and an image in a format the tracker did not announce is refused.",
  ["inputs", "configurations"], "arbitrary paths and URLs, all sizes and pixel contents, all buffer lengths and contents, all channel subsets, all versions",
  "Tests send a couple of fixed images; lengths modulo 3, arbitrary bytes and URL images are not covered.",
  [T, "src/base64.c"], [("image encoding", "image_encode, image_decode"), ("base64", "src/base64.c")])
p("C13", "Row access addresses exactly the rows of an image or mask",
  "The rows of a raw image or mask are consecutive, do not overlap and together cover the whole pixel buffer, in all formats. What is written through the row for writing is what is read through the row for reading, and nothing else changes.",
  ["inputs"], "all formats and sizes, all row write orders",
  "The tests only ever use row 0.",
  [T], [("row addressing", "trax_image_get_memory_row, trax_image_write_memory_row, trax_region_*_mask_row")])
p("C14", "Regions survive encoding to text and back",
  "Encoding a region to text and decoding it gives a region of the same type with the same content: exactly for special codes and for the position, size and pixels of a mask, and to the four printed decimals for finite rectangles and polygons. Encoding the result again gives the same text.",
  ["inputs"], "all special codes, finite rectangles and polygons of any vertex count, masks of any size, offset and pixel pattern",
  "Tests decode a few literals.",
  [R, T], [("text form", "region_string, region_parse, RLE of masks")])
p("C15", "Decoding any text either fails cleanly or gives a sound region",
  "Decoding an arbitrary string as a region returns either nothing or a well-formed region; it never crashes, aborts, over-reads or leaks. A decoded region can be encoded, and decoding that text gives the same region again.",
  ["inputs"], "arbitrary strings and near-valid region texts (wrong counts, signs, huge values, missing parts, broken run lengths)",
  "Tests decode only valid literals.",
  [R], [("text decoding", "region_parse, _parse_sequence, _parse_uri_prefix")])
p("C16", "Region conversion and cloning preserve what the region describes",
  "A clone equals its original in every observable and is independent of it; converting to the same type does the same. Converting a rectangle to a polygon keeps its corner pixels, a polygon to a rectangle gives the smallest rectangle around it, a mask to a rectangle or polygon gives the box around its set pixels, and a rectangle with whole-pixel coordinates or a polygon (vertices rounded to whole pixels) to a mask sets exactly the pixels the region covers, at the right place. Any region converts to a special region, a special region converts only to itself, an empty mask gives nothing or a region without area, and a conversion that has no result returns nothing instead of failing.",
  ["inputs"], "all region types and targets, positive, negative and fractional coordinates",
  "The tests convert two fixed rectangles.",
  [R, T], [("conversion", "region_convert"), ("clone", "trax_region_clone")])
p("C17", "Bounds and point membership agree with the region's area",
  "The bounds of a region are the tightest box around its pixels: x to x+width-1 and y to y+height-1 of a rectangle, the extreme vertices of a polygon, the extreme set pixels of a mask. Point membership agrees with the definition of the type: inside the closed box x to x+width, y to y+height, inside the polygon by the even-odd rule, on a set pixel of the mask.",
  ["inputs"], "all rectangles, polygons and masks, all query points including negative, fractional and far away ones",
  "The tests check no membership and only a few bounds.",
  [R, T], [("bounds and membership", "region_compute_bounds, region_contains_point")])
p("C18", "Overlap is the intersection over union of the covered pixels",
  "The overlap of two regions equals the number of pixels covered by both divided by the number covered by either (coordinates rounded to whole pixels), restricted to the given bounds. It is therefore between 0 and 1, symmetric, 1 for identical non-empty regions, 0 for disjoint or special ones, and unaffected by translating both regions and the bounds by whole pixels or by first converting whole-pixel rectangles and polygons to masks.",
  ["inputs"], "all pairs of rectangles, polygons and masks, all bounds including none, touching, nested, one-pixel and partly outside regions",
  "Tests compare a handful of fixed pairs.",
  [R, T], [("rasterisation and counting", "region_compute_overlap, region_get_mask, compute_polygon_overlap")])
p("C19", "The client only sends region types the tracker announced",
  "Whatever region type the caller initializes with, the tracker receives a region of a type it announced: unchanged if that type was announced, and otherwise converted so that it describes the same area. If no conversion is possible the call fails with an error and nothing is sent.",
  ["inputs", "configurations"], "all region types against all sets of announced region formats, single and multiple objects, all versions",
  "Tests always use the announced type.",
  [T, R], [("automatic conversion", "region_autoconvert in trax_client_initialize / trax_client_frame")])
p("C20", "A property set behaves as a map from keys to strings",
  "After any sequence of set, overwrite, clear, copy and append operations, looking up a key gives exactly the last value set for it, the count and enumeration list each key exactly once, and copies are independent of their source. Appending one set to another keeps or replaces existing keys exactly as requested.",
  ["histories"], "all operation sequences over several property sets, arbitrary keys (including colliding ones) and values (including empty and very long)",
  "Tests set two or three keys.",
  [SM, T], [("hash map", "src/strmap.c"), ("copy and append", "copy_properties")])
p("C21", "Typed property access returns the stored number or the default",
  "A property stored as an integer or float is read back as the same number (floats to the six printed decimals). A property that is absent, empty or not entirely a number is read as the caller's default.",
  ["inputs"], "all 32-bit integers, floats, arbitrary text values, arbitrary defaults",
  "Not tested.",
  [T], [("number parsing", "trax_properties_get_int, trax_properties_get_float, trax_properties_set_*")])
p("C22", "Object and image lists keep what was put in them",
  "After any sequence of operations a list of objects holds in each slot a copy of the last region set there together with that slot's own properties, appending adds copies of all entries of the other list in order, and out-of-range access is harmless. A list of images holds per channel the image set there, and clearing releases them all.",
  ["histories"], "all operation sequences over several lists",
  "Not tested beyond one object.",
  [T], [("lists", "trax_object_list_*, trax_image_list_*")])
p("C23", "C++ objects behave as independent values and free everything once",
  "Copies, moves, assignments (including to itself), containers and temporaries of the C++ region, image, property set, image list, object list and metadata classes behave as values: changing one region's shape through its setters or one property set never changes another object, and every object keeps showing what was last stored in it. When the last object is gone all memory is released exactly once.",
  ["programs", "histories"], "all sequences of construct, copy, move, assign, self-assign, mutate, read and destroy over a pool of objects",
  "The one C++ test makes a few copies and does not check contents.",
  [X, "include/trax.h"], [("reference counting and copy on write", "Wrapper, ensure_unique, wrap in src/traxpp.cpp")])
p("C24", "C++ client and server classes convey the same data as the C interface",
  "A session driven through the C++ client and server classes delivers the same regions, object lists, images and properties, metadata and errors in both directions as the C interface, both for single-region and for object-list calls. Calls on an object that is not connected fail with an error instead of crashing.",
  ["histories"], "all sequences of requests and replies through the C++ classes in both modes",
  "The tests use one fixed sequence and never reply with properties through this interface.",
  [X], [("wrapper calls", "Client, ServerSOT, ServerMOT in src/traxpp.cpp")])
p("C25", "The log shows exactly the bytes exchanged",
  "The logging callback of an endpoint receives, in order, exactly the bytes that endpoint consumed from and produced on the channel, no more and no less, whatever the content. Logging never changes what is exchanged, and a missing callback is harmless.",
  ["histories", "inputs"], "all sessions with arbitrary content and foreign lines, with and without logging, on either side",
  "Logs are only printed in tests, never compared.",
  [M, "src/debug.h"], [("logging in the reader and writer", "LOG_CHAR / LOG_BUFFER")])
p("C26", "Sessions of any length use bounded memory and descriptors",
  "After any session, including ones with refused calls, protocol errors, re-initializations and early termination, releasing the returned objects and cleaning up the handle returns every byte of memory and every descriptor the library took. Repeating the same request does not grow memory.",
  ["histories"], "all sessions on both sides, with faults",
  "Tests do not measure memory.",
  [T, M, X], [("ownership of decoded data", "trax_server_wait_*, trax_client_wait, trax_cleanup")])
p("C27", "The client always regains control from a misbehaving tracker process",
  "Whatever the tracker process does (answers late, hangs, exits, crashes at any point, closes its streams, floods output, never connects), each request on the process wrapper returns within the configured timeout plus a small constant, reporting failure, and no tracker process is left running once the wrapper is stopped or destroyed. A tracker that answers in time is reported as successful with exactly the states it sent, in all three connection modes, also after a restart and next to other trackers. (The tracker starts no helper processes of its own.)",
  ["fault_sequences", "schedules"], "all scripts of tracker behaviours: delay, hang, exit, signal, stream closing and garbage at every protocol step, for stream and socket connections",
  "The bad-tracker tests cover abort and two signals at two frames.",
  [C, PR, "support/client/threads.cpp"], [("watchdog and process control", "TrackerProcess::State, Process")])
p("C28", "The tracker is started with exactly the given command and environment",
  "The tracker process receives exactly the arguments obtained from the command line by splitting at spaces, honouring quotes and backslash escapes (a word that starts with a quote ends at the next unescaped one; before a quote, a backslash escapes a backslash or the quote, elsewhere it is an ordinary character), and exactly the requested environment variables and working directory on top of the inherited ones. A command that cannot be parsed or started is reported as a failure, never a crash.",
  ["inputs"], "all command lines with quoting and escaping, all environment maps, arbitrary strings",
  "Tests use one or two plain commands.",
  [PR, C], [("tokenizer and spawn", "parse_command, Process::start")])
p("C29", "Trajectories saved to a file load back unchanged",
  "A trajectory of regions written to a file is read back with the same number of regions, in the same order and each with the same content to the printed precision, in all region types, with any line-end convention and with or without a final line end. An entry without a region is kept as an empty line and read back as an empty entry.",
  ["inputs"], "all sequences of regions, all region types, all line-end styles",
  "Not tested.",
  [C, X], [("trajectory files", "save_trajectory, load_trajectory, stream operators of the region class")])
p("C30", "The Python classes convey the same data as the C library",
  "Regions, images, properties and sessions created through the Python package have exactly the content given (points, codes, mask pixels and offsets, pixel arrays of any memory layout, buffers, paths, URLs, text in any script), and a Python server and client exchange them unchanged, including per-object properties, metadata and termination reasons.",
  ["inputs", "histories"], "arbitrary region and image contents, array layouts, unicode text, sequences of requests",
  "Two Python tests with one fixed image and one fixed session.",
  ["support/python/trax/__init__.py", "support/python/trax/_ctypes.py", "support/python/trax/client.py", "support/python/trax/server.py", "support/python/trax/image.py", "support/python/trax/region.py"],
  [("ctypes bindings", "support/python/trax")])
p("C31", "The command-line client records exactly what the tracker reported",
  "Running the command-line client on an image list and ground truth starts the tracker with the given arguments and variables over the chosen kind of connection, sends the image of every processed frame once and in order (for every channel and in the encoding the tracker asks for), initializes with the given region and parameters, and writes one line per frame with exactly the region the tracker reported, 1 for frames of initialization and 0 for frames that were not processed; with a failure threshold it marks frames whose overlap with the reference is not above it as failures (2) and starts again after the configured number of skipped frames. A finished run has one entry per frame in the output and timing files and a successful exit code; a crashing, hanging or protocol-breaking tracker and an unreadable or unwritable file give a failing one, and no tracker process is left behind.",
  ["inputs", "histories"], "all sequences of images, ground truth and tracker responses, thresholds and re-initialization offsets",
  "Test runs only check that the program exits.",
  ["support/client/cli.cpp", C], [("experiment loop", "support/client/cli.cpp")])
p("C32", "Conversions to and from OpenCV types keep content and position",
  "Converting regions, rectangles, point lists, masks and images to OpenCV types and back keeps every coordinate, pixel and offset: mask pixels appear at their offset with zeros elsewhere, colour channels are swapped exactly once in each direction, and grey images keep their values and depth.",
  ["inputs"], "all rectangles, polygons, masks with offsets, grey and colour matrices including non-continuous ones",
  "Not tested.",
  ["support/opencv/opencv.cpp"], [("conversions", "support/opencv/opencv.cpp")])
p("C33", "An Octave or MATLAB tracker sees the session the C library conveys",
  "With the server function of the Octave/MATLAB interface, the formats, channels, names and custom metadata given at setup are what the client learns; every request reaches the script with its content unchanged: coordinates, mask pixels at their position and in the right orientation, image pixels in the right row, column and colour order, encoded bytes, paths, URLs, one image per channel, and parameter names and values as a structure or cell array as chosen; and the region and parameters given to status reach the client. The end of a session by either side is seen by the other one. A call that cannot be carried out ends with an error, never a crash, sends nothing and leaves the session as it was.",
  ["inputs", "histories"], "all formats, channels and metadata, all regions, image sizes and formats and parameters in cell or structure form, all sequences of requests and refused calls",
  "The Octave tests use one fixed rectangle and image path.",
  ["support/matlab/helpers.cpp", "support/matlab/traxserver.cpp"], [("server function", "traxserver.cpp mexFunction"), ("array conversion", "image_to_array, region_to_array, array_to_region, array_to_parameters, parameters_to_array in helpers.cpp")])
p("C34", "The Octave and MATLAB client function runs a tracker for a callback",
  "The client function of the Octave/MATLAB interface starts the given tracker command with the given arguments, environment and directory, and calls the callback for the start and for every state of the tracker with the tracker's name, description, family, formats and channels, the reported region, the time and exactly the properties of that state, and the data the callback returned before. The images (converted to a form the tracker accepts), region and parameters the callback returns reach the tracker unchanged; a region on a running session starts the tracker anew; no image ends the session and gives the data back. A failing callback, one that returns something that is no request (which then reaches no tracker), a failing tracker, wrong arguments (which start none) or an interrupt, also one while the tracker keeps the call waiting, end the call with an error; the next call works again. No tracker process is left behind.",
  ["inputs", "histories", "fault_sequences"], "all sequences of requests a callback can make, all images, regions, parameters and data values, all tracker formats and failures",
  "Not tested.",
  ["support/matlab/helpers.cpp", "support/matlab/traxclient.cpp", C], [("client function", "traxclient.cpp mexFunction"), ("array conversion", "array_to_image, array_to_region, array_to_parameters in helpers.cpp"), ("process", "support/client/client.cpp TrackerProcess")])
p("C35", "The test client tells compliant trackers from others",
  "Running the test client starts the given tracker once with exactly the given arguments and variables over the chosen kind of connection, initializes it as often as told (once by default) with the given parameters, each time with the fixed region (three objects if the tracker supports several), and sends its test picture for twenty frames after each initialization, waiting for every answer: as an encoded buffer if the tracker takes buffers, else as pixels, else as a path of an existing file, and in every form the same picture. A tracker with several objects gets another one on every fifth frame. The exit code is successful exactly if the tracker could be started and answered every request, each within the timeout if there is one; a crashing, hanging or protocol-breaking tracker, one without a usable image format, and a wrong command or switch give a failing one. No tracker process is left behind.",
  ["inputs", "histories", "fault_sequences"], "all arguments, parameters, environments, numbers of initializations, tracker capabilities, answers and faults at any request",
  "The test suite itself uses the program with a few trackers that send one format and die at one or two points.",
  ["support/client/tester.cpp", C], [("test loop", "support/client/tester.cpp main"), ("picture", "support/client/tester_resources.c")])
p("C36", "The player shows a video to a tracker and its answers to the user",
  "Running the player on a video starts the given tracker with exactly the given arguments and variables over the chosen kind of connection, initializes it on the first frame with the rectangle the user drew (in whichever direction) and the given parameters, and sends every further frame of the video once and in order, unchanged as pixels or encoded if the tracker takes buffers; every answer is shown on its own frame, and nothing but the regions changes the shown frame. The end of the video, or no drawn region, ends the program with a successful exit code; a missing video, a crashing, hanging or protocol-breaking tracker, one that takes neither buffers nor pixels, and a wrong command give a failing one. No tracker process is left behind.",
  ["inputs", "histories", "fault_sequences"], "all videos, drawn rectangles, options, tracker capabilities, answers and faults at any frame",
  "Not tested.",
  ["support/client/player.cpp", C], [("playing", "support/client/player.cpp main"), ("drawing", "on_mouse in player.cpp, draw_region in support/opencv/opencv.cpp")])
p("C37", "The protocol does not depend on the language settings of the program",
  "Whatever locale the program, one of its threads or one of its C++ streams has (decimal commas, digit grouping, other letters, other upper and lower case), regions, numbers in properties and whole messages are written with exactly the same bytes as in the C locale, and the same bytes are understood as the same regions, numbers, messages, properties and formats.",
  ["inputs", "histories"], "all regions, region texts, numbers and their spellings, and sessions, in every locale of the program or of the calling thread",
  "The tests run in the locale of the machine that runs them, which has a decimal point.",
  [R, T, M, "src/neutral.h"], [("numbers in regions", "region_string, _parse_sequence in src/region.c"), ("numbers in properties", "trax_properties_set_float, trax_properties_set_int, trax_properties_get_float, trax_properties_get_int in src/trax.c"), ("names of messages, keys and formats", "__parse_message_type, __is_valid_key in src/message.c, decode_image_formats and image_decode in src/trax.c")])

p("C38", "Threads that share nothing do not disturb one another",
  "Threads of one program that each use handles, regions, properties, lists and C++ objects of their own at the same time get exactly the results, messages and logs they would get alone, and there is no data race between them; an object that several threads only read gives all of them the same answers.",
  ["inputs", "histories", "schedules"], "all programs of several threads in which nothing that is modified is shared, at every interleaving",
  "The tests run one session in one thread; what a hidden static buffer or counter breaks depends on the interleaving of threads.",
  [R, T, M, "src/region.hpp", "src/base64.c"], [("decoding of format lists", "image_formats_decode, region_formats_decode, channels_decode in src/trax.c"), ("buffers of messages and regions", "read_message in src/message.c, region_parse in src/region.c"), ("lazily built state", "any static variable of src/")])

p("C39", "The log of a tracker process is complete and in order",
  "The log of a tracker wrapper contains every line that was exchanged with the tracker and every line that the tracker wrote to its error stream, each whole (cut to 255 characters), once, and in the order in which its stream carried it, also what a tracker writes right before it ends by itself and also after a restart; messages of the wrapper itself appear only when debugging is asked for, and a silent wrapper writes nothing.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all texts of trackers, requests, connections, verbosities and ends of trackers",
  "The tests do not look at the log, and lines of two streams meet in it at moments that no single run samples.",
  ["support/client/client.cpp", "support/client/process.cpp"], [("copying the error stream", "logger_loop, line_buffer_push, line_truncate in support/client/client.cpp"), ("messages of the session", "client_logger in support/client/client.cpp"), ("what is left at the end", "flush_streams, stop_process in support/client/client.cpp")])

p("C40", "Trackers run at the same time do not disturb one another",
  "Tracker wrappers that are created, used, restarted and destroyed at the same time in different threads each behave as they would alone: every one talks to its own tracker over its own connection, starts within its timeout, gets its own tracker's answers, gives it its own variables and directory, and ends its own tracker only, whatever happens to the trackers of the others; the working directory of the program itself never changes, and afterwards no process and no open descriptor remains.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all numbers of concurrent wrappers, kinds of connections, sessions and faults of single trackers, at every interleaving",
  "The tests start one tracker at a time; descriptors inherited by another tracker or a port given twice show up only for certain interleavings.",
  ["support/client/client.cpp", "support/client/process.cpp"], [("ports of sockets", "TrackerProcess::State in support/client/client.cpp"), ("what a child inherits", "Process::start in support/client/process.cpp"), ("ending a tracker", "watchdog_loop, stop_process in support/client/client.cpp")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
print(len(P), max(len(e["title"]) for e in P))
