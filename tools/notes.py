NOTES.update({
 "session": "Random search, no proof. Real library on both ends of real channels, compared with an independent model written from the documented protocol; the oracle sees only the public interface and the bytes on the channel. Trusts the model, the sanitizers and the kernel's pipes.",
 "data": "Random search, no proof. Every operation is mirrored in a plain reference model and compared after each step under address and undefined-behaviour sanitizers.",
 "region": "Random search, no proof. Geometry is compared with an independent exact reference on small coordinates and by metamorphic relations on large ones; pixels for which the rasterisation rule leaves a choice are accepted either way.",
 "cpp": "Random search, no proof. C++ classes are driven by generated programs next to a value model, under address, undefined-behaviour and leak checks.",
 "proc": "Random search over scripted child processes, no proof. The client library runs with sanitizers in the check's process; the tracker is an independent program that follows the generated script. Times are checked only against wide margins (six seconds beyond the configured timeout). Trusts the kernel's pipes, sockets and process control.",
 "tools": "Random search over generated sessions with scripted trackers, no proof. The programs run with sanitizers as processes of their own; the player's window and video reader are stand-ins (harness/child/gui.cpp), so nothing is said about OpenCV's.",
 "cli": "Random search over generated experiments with scripted trackers, no proof. The command-line program runs with sanitizers as a process of its own; the overlap that decides about failures is the library's (checked by C18).",
 "python": "Random search with hypothesis, no proof. The Python package and a shared library with sanitizers run in one forked process per case; sessions connect a Python server process with a Python client. Byte-level protocol behaviour is left to the checks of the C library.",
 "opencv": "Random search, no proof. The conversions run with sanitizers next to plain arrays of pixels and coordinates; the system's OpenCV library is trusted.",
 "mexserver": "Random search, no proof. The real function is compiled with sanitizers against a stand-in of Octave's MEX interface (harness/mex) that checks every access to arrays; the other end is the C library's client over an in-memory channel. The stand-in was compared with Octave 8.4; MATLAB itself is not available.",
 "mexclient": "Random search over scripted tracker processes, no proof. The real function is compiled with sanitizers against a stand-in of Octave's MEX interface (harness/mex); what the tracker received is decoded by the C library's server. Interrupts come through a stand-in of the interpreter's handler.",
 "locale": "Random search, no proof. The same calls in the C locale and in one of five compiled locales that were chosen for their decimal signs, letters and case rules; they stand for all others. Trusts the system's localedef.",
 "threads": "Random search over programs of several threads, no proof: what runs at the same time is up to the scheduler, but ThreadSanitizer also reports pairs of accesses that merely could. Results are compared with those of the same jobs run alone.",
 "C39": "Random search over scripted child processes, no proof. The order between the two streams is not judged; a tracker that ends by itself may leave a message cut off.",
 "C40": "Random search over scripted child processes and the schedules that occur, no proof. Trackers that hang or flood are left to C27.",
 "C29": "Random search, no proof. Files are written and read by the library and compared with a region model; coordinates are exact in the printed decimals.",
 "C05": "Sessions and cut positions are generated, short sessions are cut at every position; no proof for longer ones. Same model and trust as C01.",
})
NA = {}
KNOWN = []
FIXED = {
 "bytes above 127": "C01", "the type of the previous message": "C05 C11", "the line after an ignored": "C03", "a malformed message left": "C03",
 "a line end that was never": "C25", "error messages with numbers": "C10", "appending properties always": "C20", "rows of a raw image": "C13",
 "a received URL": "C12", "the decoded length of malformed": "C06", "decoding a raw image": "C06", "an encoded image arrived": "C12",
 "an empty property": "C21", "image list accepted": "C22", "polygon point index": "C15", "a hello message without formats": "C07",
 "a refused handshake": "C26", "metadata flags of a legacy": "C07", "client wait handed out": "C06 C10", "an empty region argument": "C06",
 "server wait failed without": "C10", "server wait for a single": "C10", "an empty initialize message": "C26", "waiting on a terminated": "C11 C26",
 "a refused initialize": "C10 C19", "parsing a region wrote": "C14 C15", "text with a wrong number": "C15", "bounding rectangle of a polygon": "C16",
 "bounds of a mask without": "C16 C17", "mask of a polygon was": "C16", "converting an empty rectangle": "C16", "a point left or above": "C17",
 "overlap of touching": "C18", "a polygon with several": "C16 C18", "a negative run length": "C15", "objects announced right before": "C06",
 "assigning a C++ object to itself": "C23", "moved-from C++": "C23", "clearing a shared property": "C23", "C++ object lists leaked": "C23", "C++ image lists leaked": "C23 C24",
 "the C++ metadata of a handle": "C24", "calls on a C++ object that is not": "C24", "the C++ server replied": "C24", "an empty C++ object list": "C24 C10",
 "a tracker command that cannot": "C28", "a failed start of the tracker": "C28 C27", "a long word made": "C28", "spaces at the end made": "C28", "quotes inside a quoted": "C28",
 "a tracker that could not be started": "C27 C28", "a debug message": "C28", "requests before an initialization": "C27", "a tracker with an unsupported": "C27", "a wrapper without a running": "C27",
 "a tracker kept the streams": "C27", "the watchdog used the connection": "C27", "messages of a tracker could be lost": "C27", "a restarted tracker could": "C27",
 "the command-line client mixed": "C31", "the command-line client bounded": "C31", "the command-line client ignored": "C31", "the command-line client read": "C31", "the timings of the command-line": "C31",
 "the command-line client did not escape": "C31", "a missing image file": "C31", "an interrupted wait for the connection": "C31 C27", "missing reference or initialization": "C31",
 "items of Python properties could not": "C30", "a Python client could not send a frame": "C30", "Python masks were created from the wrong": "C30", "the names of the formats of encoded": "C30",
 "Python loggers read beyond": "C30", "Python loggers lost text": "C30", "a Python log file could not": "C30", "a Python mask with a negative": "C30", "a Python client without a log": "C30",
 "Python clients and servers did not report": "C30", "Python images of the other byte order": "C30", "Python loggers were used after": "C30",
 "parts of OpenCV matrices": "C32", "masks with an offset were converted": "C32", "gray images could not be converted": "C32", "drawing a mask failed": "C32",
 "the MATLAB and Octave functions aborted": "C33", "the MATLAB and Octave functions refused most": "C33 C34", "the MATLAB and Octave functions refused empty": "C33 C34", "masks with a negative offset were written": "C33 C34",
 "the MATLAB and Octave server function read": "C33", "the MATLAB and Octave client function gave": "C34", "The MATLAB and Octave client function did not notice": "C34",
 "the test client sent": "C35", "the test client crashed": "C35", "the test client did not escape": "C35",
 "the player never": "C36", "the player did not escape": "C36", "the player did not accept": "C36", "a missing video": "C36", "rectangles that were drawn upwards": "C36",
 "Numbers are printed and parsed": "C37", "Names of messages, formats": "C37",
 "Clients that are set up in several": "C38", "Trackers started in several threads": "C40", "Starting a tracker in a directory": "C40",
 "URLs with digits or capital": "C12", "JPEG images without a JFIF": "C12",
 "a reply without a region": "C10", "releasing an object list with an emptied": "C22", "a multi-object reply with a missing": "C10", "a mask too large": "C06 C15", "setting an object to the region": "C22", "pixels of a polygon edge": "C18",
}
