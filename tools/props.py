# The properties and their checks; tools/gen.py turns this into properties.jsonl and MANIFEST.json.
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why,
                      anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                               "mechanism": [dict(name=a, where=b) for a, b in mech],
                               "observe_at": list(observe), "hook_needed": None},
                      technique=technique, note=note, **kw))

VT_TESTS = ("the tests feed the emulator one hand-written script and a single pseudo-random stream, and compare "
            "with dumps the same code made before; ")
MODEL = ("differential monitor: libtty and an independent reference terminal (harness/term/model.hh) fed the same "
         "generated history, compared after every step")
EXPL = "Held on every generated history, nothing beyond them; "

P("T01", "The emulator is memory-safe on any byte stream and API history",
  "Whatever bytes are written to an emulated terminal, in whatever pieces, interleaved with resizes, resets, copies, formatted prints and attached listeners, the library never reads or writes outside its objects, never uses freed or uninitialised memory and never commits undefined arithmetic. "
  "It always finishes, and after the terminal is freed nothing it allocated is left.",
  ["inputs", "histories"], "every byte string incl. malformed UTF-8, huge parameters and endless OSC strings; every interleaving of the public terminal calls; every screen size from 1x1",
  VT_TESTS + "they run without instrumentation, so an out-of-bounds access or leak passes unnoticed",
  ["libtty/tty.c", "libtty/vtredir.c", "libtty/charsets.c"],
  [("bounds of cursor and region movements", "libtty/tty.c: tty_write()"), ("combining chains", "libtty/tty.c: tty_add_comb()"), ("OSC buffer", "libtty/tty.c")],
  "ASan+UBSan+LSan (and MSan in the thorough tier) over generated terminal histories, heap balance per history",
  EXPL + "the sanitizers see accesses outside allocated blocks, not those between fields of one block.",
  state=[("vt", "screen, cursor, parser state", "libtty/tty.h: struct tty")], observe=["sanitizer reports", "heap size before and after a history"])

P("T02", "Every reachable screen is well-formed",
  "After any history of writes, resizes, resets and copies each cell of the screen holds either a printable character of positive width or the right half of the double-width character directly left of it, each double-width character is followed by its right half, cells carry at most four combining marks, all of zero width, and no undefined attribute bits. "
  "The cursor lies on the screen or just past the last column of a line, the scrolling region is a non-empty range of lines, and the storage of combining marks is consistent: each mark belongs to exactly one cell.",
  ["inputs", "histories"], "every history of terminal calls, every screen size",
  VT_TESTS + "a stray half of a wide character or a shared chain of combining marks needs particular overlaps of wide characters with erases, inserts, scrolls and resizes",
  ["libtty/tty.c"], [("splitting of wide characters", "libtty/tty.c: SPILL macros in tty_clear_region(), tty_write()"), ("combining chains", "libtty/tty.c: tty_kill_comb()"), ("clamping", "libtty/tty.c: tty_resize(), tty_write()")],
  "invariant monitor over the public screen structure after every step, under ASan+UBSan",
  EXPL + "the width of characters newer than both Unicode tables used is taken from the emulator itself.",
  state=[("scr, combs, cx, cy, s1, s2", "screen, combining chains, cursor, scrolling region", "libtty/tty.h")], observe=["struct tty after each call"])

GEO = "cursor movement, tabs, line feeds, index and reverse index, auto-wrap, save/restore, scrolling regions, erasing, inserting and deleting of characters and lines"
P("T03", "Cursor motion, scrolling and editing follow VT100 semantics",
  "For every sequence of " + GEO + ", the screen and cursor end up as on a VT100-family terminal of that size: counts default to 1 and are clamped to the screen or region, wrapping is deferred until the next character, content moves without being altered, vacated cells are blank in the current colour, and everything outside the affected area stays as it was. "
  "Double-width characters cut in half by an operation become blanks.",
  ["inputs", "histories"], "every sequence of these operations with every parameter value, on every screen size, starting anywhere",
  VT_TESTS + "few parameter values, a handful of regions, and no comparison with an independent terminal",
  ["libtty/tty.c"], [("scroll", "libtty/tty.c: tty_scroll()"), ("erase", "libtty/tty.c: tty_clear_region()"), ("CSI dispatch", "libtty/tty.c: tty_write()")],
  MODEL, EXPL + "trusts the reference model, written from ECMA-48/VT100 practice and this project's documented deviations (DESIGN.md).",
  state=[("scr, cx, cy, s1, s2", "screen, cursor, region", "libtty/tty.h")], observe=["struct tty after each call"])

P("T04", "Text decodes and displays as the charset rules say",
  "Text written to the terminal appears as the Unicode characters it encodes, each occupying as many columns as its width, with zero-width marks attached to the preceding character and wide characters never split across lines. "
  "Malformed, overlong and non-character UTF-8 can neither corrupt neighbouring text nor smuggle in control characters; surrogate pairs are joined, and the line-drawing, CP437 and G0/G1 charset switches affect exactly the text after them.",
  ["inputs"], "every byte string, every split of a character between writes, every charset state",
  VT_TESTS + "they use a few dozen characters and a couple of malformed sequences",
  ["libtty/tty.c", "libtty/charsets.c", "libtty/wcwidth.c"], [("UTF-8 decoder", "libtty/tty.c: tty_write()"), ("character placement", "libtty/tty.c: tty_write()"), ("charset tables", "libtty/charsets.c")],
  MODEL, EXPL + "trusts Python's codec tables for CP437 and Unicode widths where they agree with the C library's.",
  state=[("utf_char, utf_count, utf_surrogate, transl", "decoder state", "libtty/tty.h")], observe=["struct tty after each call"])

P("T05", "SGR sequences set exactly the attributes they name",
  "After any sequence of SGR parameters the current attribute and every character printed with it have exactly the bold, dim, italic, underline, inverse, strike and blink flags and the foreground and background colour those parameters select, in 16-colour, bright, 256-colour and 24-bit forms. "
  "Unknown or incomplete parameters change nothing else, and the attribute is kept by save/restore and dropped by reset.",
  ["inputs", "histories"], "every list of SGR parameters of any length and value, in any order",
  VT_TESTS + "only some parameters occur, in isolation",
  ["libtty/tty.c"], [("SGR", "libtty/tty.c: tty_write(), case 'm'")], MODEL,
  EXPL + "trusts the reference model's reading of ECMA-48 and xterm.", state=[("attr, save_attr", "current and saved attribute", "libtty/tty.h")], observe=["struct tty after each call"])

P("T06", "The parser recovers from any control sequence and shows none of it",
  "No escape, CSI or OSC sequence, known or unknown, complete, malformed, over-long, interrupted by control characters or aborted by CAN/SUB/ESC, displays any of its bytes or swallows text after its end: control characters inside it act at once, and the text that follows is shown as if the sequence weren't there, apart from its defined effect. "
  "Titles set by OSC arrive intact up to the documented buffer size, modes switch exactly the flags they name.",
  ["inputs"], "every byte string around and within escape sequences",
  VT_TESTS + "they contain no aborted, over-long or unknown sequence",
  ["libtty/tty.c"], [("state machine", "libtty/tty.c: tty_write(), vt->state")], MODEL,
  EXPL + "parameters above INT_MAX are only generated for the memory checks.", state=[("state, ntok, tok, oscn, title", "parser state", "libtty/tty.h")], observe=["struct tty after each call"])

P("T07", "A resize keeps what fits and never loses its place",
  "Changing the terminal's size through the API or by the resize sequence keeps every character, attribute and combining mark that fits, blanks the rest in the current colour, turns wide characters cut by the new edge into blanks, brings the cursor onto the new screen and resets the scrolling region to it. "
  "A terminal marked as not resizable ignores the resize sequence, and the terminal behaves afterwards like any other of that size.",
  ["inputs", "histories"], "every pair of sizes, every screen content, cursor and region at that time, followed by any output",
  "one test resizes once or twice with plain text", ["libtty/tty.c"], [("resize", "libtty/tty.c: tty_resize()"), ("sequence", "libtty/tty.c: ESC[8;h;wt")], MODEL,
  EXPL + "trusts the reference model.", state=[("sx, sy, scr, s1, s2", "size, screen, region", "libtty/tty.h")], observe=["struct tty after each call"])

P("T08", "The way output is cut into writes does not matter",
  "Delivering the same bytes in one write, byte by byte or in any other pieces, through plain or formatted writes, leaves the terminal in the same state and produces the same listener events in the same order, apart from flush events. "
  "Each write ends with exactly one flush event.",
  ["inputs", "schedules"], "every byte string and every way to cut it", "the tests write in one way only",
  ["libtty/tty.c"], [("all parser state kept in struct tty", "libtty/tty.c: tty_write()"), ("tty_printf", "libtty/tty.c: tty_printf()")],
  "metamorphic monitor: five fragmentations of each history compared in state and event log", EXPL + "shares no oracle with the model.",
  state=[("state, utf_*", "partial input", "libtty/tty.h")], observe=["struct tty", "listener callbacks"])

P("T09", "Listeners see enough to rebuild the screen exactly",
  "A listener that only follows the documented callbacks (characters, combining marks, cursor, clears, scrolls, resizes, flags, title) holds the same screen, cursor, flags and title as the terminal after every write. "
  "No callback names a place outside the screen, each bell rings exactly once, each write is flushed once and freeing is reported once.",
  ["inputs", "histories"], "every history of writes, resizes and resets",
  "one test prints the callbacks of a fixed script and compares with an earlier run", ["libtty/tty.c", "libtty/tty.h"],
  [("callback calls", "libtty/tty.c: l_char, l_comb, l_cursor, l_clear, l_scroll, l_flag, l_osc, l_resize")],
  "online monitor: a screen rebuilt from callbacks alone, compared with the terminal after every write",
  EXPL + "after a resize or reset called through the API the listener re-reads the screen, as the documentation expects.",
  observe=["listener callbacks", "struct tty"])

P("T10", "A mirrored terminal shows the same screen",
  "While an emulated terminal is redirected to a real one at least as large, the output sent there makes it show, after every flush, the same characters, attributes, combining marks, cursor position, title and size as the source. "
  "This holds for the tracked real terminal whether it equals the source in size or exceeds it.",
  ["inputs", "histories"], "every history of output including resizes of the source, every real size at least as large",
  "the mirroring test runs one pseudo-random stream on equal sizes, and compares with the same emulator", ["libtty/vtredir.c"],
  [("drawing with deferred cursor and attribute", "libtty/vtredir.c: vtvt_char(), setattr(), vtvt_cursor()"), ("scroll and clear emulation", "libtty/vtredir.c: vtvt_scroll(), vtvt_clear()")],
  "online monitor: the output is fed to a reference xterm model and to a second emulator, both compared with the source after every flush",
  EXPL + "trusts the reference model as the real terminal; cursor visibility isn't mirrored.", observe=["bytes written to the real terminal"])

P("T11", "A dump redraws the whole screen from scratch",
  "Attaching to a terminal with any history and dumping it onto a real terminal that had something else on it makes the latter show the same characters, attributes, combining marks and cursor position. "
  "Mirroring continued from there stays exact.",
  ["inputs", "histories"], "every screen reachable by output, resizes and resets; every real size at least as large",
  "dumps are only made of screens from one stream", ["libtty/vtredir.c"], [("dump", "libtty/vtredir.c: vtvt_dump()")],
  "online monitor: the dump is shown on a reference xterm model with other content and compared with the source",
  EXPL + "trusts the reference model as the real terminal.", observe=["bytes written to the real terminal"])

P("T12", "A copy of a terminal is equal and independent",
  "A copy of a terminal, taken at any moment, even in the middle of a character or sequence, is indistinguishable from the original: the same further output leads both to the same states. "
  "Afterwards nothing done to one (output, resizes, resets, freeing) affects the other or calls the other's listeners.",
  ["inputs", "histories"], "every history before and after the copy, either one freed first",
  "copies are used by seeking tests with plain text only", ["libtty/tty.c"], [("deep copy", "libtty/tty.c: tty_copy()")],
  "metamorphic monitor: original vs copy, same and one-sided continuations, under ASan", EXPL + "shares no oracle with the model.", observe=["struct tty", "listener callbacks"])

P("T13", "A reset forgets everything but title and character encoding",
  "After the terminal is reset by the API or by its reset sequence, at any moment of any history, its screen, cursor, attributes, modes, charsets, scrolling region, saved state and parser are those of a new terminal of the same size, and any further output acts as on a new one. "
  "Only the window title and the UTF-8/CP437 switch survive.",
  ["inputs", "histories"], "every history before and after the reset",
  "resets occur in one script without checking what follows", ["libtty/tty.c"], [("reset", "libtty/tty.c: tty_reset()")],
  "metamorphic monitor: reset terminal vs a fresh one, same continuation, compared after every step", EXPL + "shares no oracle with the model.", observe=["struct tty"])

P("T14", "Colour conversions keep palettes exact and come close otherwise",
  "Converting a terminal colour between the 16-colour, 256-colour and 24-bit kinds maps every palette entry to its standard RGB value, a colour of the wanted kind to itself, a palette colour given as RGB back to an entry of the same colour, and any other RGB value to an existing entry near it, never one out of range. "
  "Dropping the colour yields none.",
  ["inputs"], "all 16+256 palette entries and all 2^24 RGB values, to every kind",
  "the colour tests print some conversions and compare with what the code gave before",
  ["libtty/colors.c"], [("conversion", "libtty/colors.c: tty_color_convert()"), ("palettes", "libtty/colors.c")],
  "exhaustive execution under UBSan with an online monitor holding the palettes written out anew and bounds on the error",
  "All of the palettes, a sample of RGB values in quick and all of them in thorough; nearness is a bound fixed at about the present worst case, and VGA brown as RGB (taken for red) is left out.",
  level="exploration", observe=["tty_color_convert() results"])

P("T15", "Every Unicode character takes the columns its width says",
  "Any code point written to the terminal moves the cursor by its width, 0, 1 or 2 columns, occupies exactly that many cells, is kept unaltered, leaves its neighbours alone and is reported to listeners once with the same width. "
  "Where independent Unicode width tables agree, the width is theirs.",
  ["inputs"], "every code point of Unicode", "the tests write a few dozen characters",
  ["libtty/tty.c", "libtty/wcwidth.c"], [("width", "libtty/wcwidth.c"), ("placement", "libtty/tty.c: tty_write()")],
  "exhaustive execution under ASan+UBSan, the screen, cursor and callbacks monitored for each code point",
  "All of Unicode at one place of one screen; other places are T03's and T04's.", observe=["struct tty", "listener callbacks"])

FMT_TESTS = ("the tests convert two or three sample recordings between formats and compare with stored results; ")
CODEC = "offline checker: what the library writes is read by an independent codec (lib/rec.py), what an independent generator writes is played by the library; ASan+UBSan+LSan throughout"
P("F01", "A ttyrec recording returns exactly what was recorded",
  "Whatever frames are recorded as ttyrec, with any data, any delays and an optional second recording appended, the file holds exactly those frames with their times to the microsecond, and playing any valid ttyrec, whole or arriving in pieces, yields the same data, the same delays and the right starting time. "
  "A file cut anywhere plays all frames that are whole, and whatever is shown beyond them is the beginning of the next.",
  ["inputs", "crash_points", "schedules"], "every sequence of frames, every truncation point, every fragmentation of the input",
  FMT_TESTS + "no odd sizes, huge frames, out-of-order times or truncation", ["libtty/formats.c", "libtty/files.c"],
  [("writer", "libtty/formats.c: record_ttyrec()"), ("reader", "libtty/formats.c: play_ttyrec()")], CODEC,
  EXPL + "frames up to 100 KB, times to 2^32 s.", observe=["the file", "player callbacks"])
P("F02", "An asciicast recording is valid JSON with the session in it",
  "Whatever is recorded as asciicast version 1 or 2, the file is valid JSON of that version, with the terminal's size, the date, and events that carry exactly the text in order, times to the microsecond, even when pieces of output end inside a character or need escaping. "
  "Playing it back gives the same text and delays.",
  ["inputs"], "every text, every way it is cut into frames, every sequence of delays and sizes", FMT_TESTS + "one recording with no control characters and no split characters",
  ["libtty/asciicast.c"], [("writer", "libtty/asciicast.c: record_asciicast()"), ("escapes and held-back bytes", "libtty/asciicast.c")], CODEC,
  EXPL + "text is valid UTF-8; the JSON judge is Python's.", observe=["the file", "player callbacks"])
P("F03", "Any valid asciicast plays as its events say",
  "Any valid asciicast file of version 1 or 2, with header fields in any order, unknown fields, nested objects, any JSON white space, escapes and number forms and with other kinds of events between, plays its output events with their text and delays, after setting the size from the header, and starts at the date given. "
  "It doesn't matter in what pieces the file arrives.",
  ["inputs", "schedules"], "every valid file, every fragmentation", FMT_TESTS + "files from one writer only",
  ["libtty/asciicast.c"], [("JSON reader", "libtty/asciicast.c: play_asciicast()")], CODEC,
  EXPL + "header fields other than version come anywhere, events are arrays on lines of their own or in the stdout array.", observe=["player callbacks"])
P("F04", "An nh_recorder recording keeps output and times to 1/100 s",
  "Whatever is recorded as nh_recorder, except NUL bytes which it cannot hold, comes back from the file in order, each piece stamped with its time to within a hundredth of a second, with no drift, and playing any valid file of this kind yields the same. "
  "Files in pieces or cut short play as far as they go.",
  ["inputs", "crash_points", "schedules"], "every sequence of frames, truncation and fragmentation", FMT_TESTS + "a single file",
  ["libtty/formats.c"], [("writer", "libtty/formats.c: record_nh_recorder()"), ("reader", "libtty/formats.c: play_nh_recorder()")], CODEC,
  EXPL + "recordings up to 2^31 hundredths.", observe=["the file", "player callbacks"])
P("F05", "No recording file can crash or hang a reader",
  "Any bytes whatsoever given to any reader, whole or in pieces, played or loaded into a timeline, are handled without touching memory out of bounds, undefined arithmetic, leaks or hangs, and lead to no output with un-normalised times. "
  "The result doesn't depend on the pieces the file arrives in, and the loaded part can be searched as any recording.",
  ["inputs", "schedules"], "every byte string, every reader, missing callbacks included", "the tests contain no damaged file",
  ["libtty/formats.c", "libtty/asciicast.c", "libtty/dosrecorder.c", "libtty/timeline.c"],
  [("readers", "libtty/formats.c, libtty/asciicast.c, libtty/dosrecorder.c")], "ASan+UBSan+LSan over mutated, spliced and random files of every format, with monitors for leftovers, times and fragmentation",
  EXPL + "files up to a few hundred KB.", observe=["sanitizer reports", "player callbacks", "timeline"])
P("F06", "DosRecorder files show the recorded screens",
  "Any valid DosRecorder file, packed or not, shows at each frame's time exactly the 80x25 screen the file describes, characters, colours and title, with the delays the file states. "
  "Cut short, it shows the frames before the cut.",
  ["inputs", "crash_points"], "every sequence of screens, every truncation", FMT_TESTS + "one sample file",
  ["libtty/dosrecorder.c"], [("reader", "libtty/dosrecorder.c")],
  "offline checker: files from an independent writer are loaded, and every frame's screen compared with one drawn plainly", EXPL + "the file format is known from the reader and the sample alone.", observe=["timeline screens", "player callbacks"])
P("F07", "Live streams keep their timing and plain text its pace",
  "A live stream is stamped with the time each byte arrives and a recording played live comes out at its own pace, never hurrying to make up for lost time, with nothing held back; plain text is stored as is and shown at the given speed. "
  "Format detection plays a ttyrec, asciicast or plain text file of any length exactly as its own reader would.",
  ["inputs", "schedules"], "every sequence of arrivals and frames, files down to no bytes", "no test uses live streams, and detection sees two or three files",
  ["libtty/formats.c"],
  [("live reader and writer", "libtty/formats.c: play_live(), record_live()"), ("detection", "libtty/formats.c: play_auto()"), ("pace", "libtty/formats.c: play_baudrate()")],
  "online monitor under a virtual clock: arrivals and outputs are stamped by stand-ins for the system's clock and sleeps", EXPL + "delays are virtual; real scheduling is not measured.", observe=["virtual clock", "player callbacks", "output file"])
P("F08", "The format is chosen by name, then extension, then default",
  "For reading and writing alike a format named explicitly wins and fails if unknown, else the file name's extension decides, in any letter case and before a compression suffix, else the default. "
  "The lists of formats offered are complete and consistent with this.",
  ["inputs"], "every format name, file name and default", "few names are tried", ["libtty/formats.c", "libtty/files.c"],
  [("lookup", "libtty/files.c: ttyrec_w_find_format(), ttyrec_r_find_format()")], "differential monitor against the documented rules", EXPL, observe=["lookup results"])

TL_TESTS = "the timeline tests load a recording or two and seek to a few fixed places; "
P("R01", "Seeking shows the screen that playing up to there would",
  "For every recording and any time sought, the frame found is the last one not after that time, with its own time, and the terminal that comes with it equals, in screen, cursor, attributes and hidden state, one that was fed all output up to there, however the seeks are ordered. "
  "Output continued from it gives the same screens as continuous play.",
  ["inputs", "histories"], "every recording, every order of seeks", TL_TESTS + "they never look for state carried across a snapshot",
  ["libtty/timeline.c"], [("snapshots", "libtty/timeline.c: ttyrec_seek()"), ("copying", "libtty/tty.c: tty_copy()")],
  "metamorphic monitor: each seek compared cell by cell, and after further output, with a linear replay; ASan+UBSan", EXPL + "linear replay by the same emulator is the oracle.", observe=["struct tty", "frame"])
P("R02", "Loaded recordings keep every frame and cap long pauses",
  "A recording loaded or built frame by frame holds exactly the frames given, in order, each timed at the sum of the delays before it, where any pause of five seconds or more, or backwards, counts as five seconds. "
  "The start is the recording's date where it has one.",
  ["inputs"], "every sequence of delays and data, every format, compressed or not", TL_TESTS + "no long or negative delays", ["libtty/timeline.c"],
  [("adding frames", "libtty/timeline.c: ttyrec_add_frame(), ttyrec_load()")], "offline checker: frames and times against an independent account of each file", EXPL, observe=["frames of the timeline"])
P("R03", "Saving a selection writes exactly the frames in it",
  "Saving any selection of a recording in any format writes exactly the frames from the one shown at its start to the last one not after its end, with their data and times, and reports success; an open end reaches to the end of the recording. "
  "It leaves neither descriptors nor threads behind.",
  ["inputs"], "every recording, both ends anywhere, every format", "no test saves a selection from the library with odd ends", ["libtty/timeline.c"],
  [("save", "libtty/timeline.c: ttyrec_save()")], "offline checker: saved files decoded independently and compared with the selection", EXPL, observe=["saved files"])
P("R04", "A recording can be viewed while it is still loading",
  "While one thread adds frames, others may seek, step through and save the recording without data races, and each sees a consistent prefix: a frame found stays, its time, data and screen are final, and the recording only grows.",
  ["schedules"], "every interleaving of one loader with any number of readers", "the tests are single-threaded", ["libtty/timeline.c"],
  [("publication of frames and snapshots", "libtty/timeline.c")], "ThreadSanitizer with online monitors in the readers, under randomised delays", EXPL + "interleavings are those the scheduler and injected delays produce; one loader.", observe=["TSan reports", "frames seen by readers"])
P("R05", "Time arithmetic is exact and normalised",
  "Adding, subtracting, comparing and scaling times gives the exact result, to a microsecond for scaling, always normalised to 0..999999 microseconds, for negative times, borrows and carries alike.",
  ["inputs"], "every pair of times, every speed factor", "only used with a few small positive times", ["libtty/ttyrec.h"],
  [("macros", "libtty/ttyrec.h: tadd, tsub, tcmp, tmul1000, tdiv1000")], "online monitor comparing with 128-bit arithmetic, under UBSan", EXPL + "times up to 2^40 s (2^30 for scaling).", observe=["results"])

ST_TESTS = "the tests compress and read back one small file per kind; "
P("S01", "Compressed recordings are standard files that read back whole",
  "Data written through a stream whose name ends in .gz, .bz2, .xz or .zst becomes a valid file of that kind, holding exactly that data, appended to what was there if so asked; reading any valid file of those kinds, of any number of parts and from any compressor, gives all its contents. "
  "Names without these suffixes are stored and read as they are, and compression is recognised in any letter case.",
  ["inputs"], "every content and length, every way of cutting writes and reads, files of several parts", ST_TESTS + "no large, empty, multi-part or appended files",
  ["libstream/compress.c", "libstream/stream.c"],
  [("filters", "libstream/compress.c: read_*(), write_*()"), ("suffixes", "libstream/compress.c: comp_from_ext()")],
  "differential monitor: files are checked with independent decompressors and made with independent compressors; ASan+UBSan+LSan, thread and descriptor balance",
  EXPL + "trusts Python's codecs and the zstd program.", observe=["files", "data read from streams", "thread and descriptor counts"])
P("S02", "Damaged compressed files fail safely and keep what is readable",
  "A compressed file that is truncated, damaged anywhere, followed by garbage or not of the kind its name says is read without memory errors, leaks, hangs or left-over threads. "
  "What comes before a truncation is delivered, and nothing is delivered that isn't in the file.",
  ["inputs", "crash_points"], "every truncation and damage of every file", ST_TESTS + "none is damaged",
  ["libstream/compress.c"], [("error paths of the decompressors", "libstream/compress.c: read_*(), write_*()")],
  "sanitizers over mutated files, with a monitor comparing what is delivered with a reference decoder", EXPL + "a damaged file may show as an error or as an early end.", observe=["data read", "sanitizer reports", "thread and descriptor counts"])
P("S03", "Network streams carry every byte to the right place",
  "A tcp:// or http:// stream connects to the host and port given, by name, IPv4 or [IPv6] address, and carries everything once and in order however the network cuts it, in either direction, uncompressed or compressed as the path says. "
  "A plain tcp:// stream sends nothing of its own to the server.",
  ["inputs", "schedules"], "every form of address, every fragmentation and pace of either side", "no test uses the network",
  ["libstream/url_tcp.c", "libstream/url_curl.c", "libstream/stream.c"], [("addresses", "libstream/url_tcp.c: connect_tcp()"), ("schemes", "libstream/stream.c: open_stream()"), ("http", "libstream/url_curl.c")],
  "offline checker: scripted servers on the loopback, and link-time stand-ins that record the addresses used, under ASan", EXPL + "loopback only.", observe=["servers' logs", "data read", "messages"])
P("S04", "Telnet streams hide the protocol, not the data",
  "From a telnet stream one gets exactly the data the server sent, with every command, option and subnegotiation removed and doubled IACs joined, however the stream is cut. "
  "Each request is answered once and in order: remote echo and suppression of go-ahead are agreed to, anything else is refused.",
  ["inputs", "schedules"], "every sequence of data and telnet commands, every fragmentation", "no test uses telnet",
  ["libstream/url_telnet.c"], [("filter", "libstream/url_telnet.c: telnet()")],
  "offline checker: a scripted server and an independent telnet parser over both directions, under ASan", EXPL, observe=["bytes on both sides of the connection"])
P("S05", "termcast:// plays the session asked for",
  "Given a termcast server and a name, the stream finds that session in the server's menu whatever colours, pages, similar names and telnet negotiation surround it, presses its key, once, and shows everything the server sends. "
  "If there is no such session no other is chosen, and when the server hangs up the user is told.",
  ["inputs", "schedules"], "every menu, name and fragmentation", "no test uses termcast", ["libstream/url_termcast.c"],
  [("menu reader", "libstream/url_termcast.c: termcast(), match()")], "offline checker: a scripted server with generated menus logs the choice made, and the data read is compared; ASan", EXPL + "menus follow the format of termcast.org.", observe=["key pressed at the server", "data read"])
P("S06", "Streams give their resources back and explain failures",
  "A stream that cannot be opened gives -1 with an error message if one was asked for, and whatever becomes of a stream, read to the end, closed early, refused, or hit by a failing system call, it leaves no thread, descriptor, process or memory behind. "
  "Failures of helpers never hang or kill the program.",
  ["inputs", "crash_points"], "every kind of URL and file, every system call that can fail, closing at every point", "the tests never fail a system call",
  ["libstream/stream.c", "libstream/compress.c", "libstream/url_tcp.c", "libstream/url_termcast.c", "libstream/url_curl.c"],
  [("opening and clean-up", "libstream/stream.c: open_stream(), filter(), reap_streams()")],
  "fault injection by link-time stand-ins for pipe, dup, socket, connect and thread creation; monitors of threads, descriptors and the heap (LSan)", EXPL + "one failure per stream.", observe=["error message", "thread and descriptor counts", "sanitizer reports"])
P("S07", "A recording that could not be written is reported, what was is kept",
  "When a recording or saved selection doesn't fit on the disk, or its reader goes away, writing or closing reports it, without crashing, hanging or leaking, and what got written is a prefix of the recording. "
  "Success is reported only for a complete file.",
  ["crash_points", "inputs"], "space ending at every byte of every recording, plain or compressed", "the tests never run out of space",
  ["libtty/formats.c", "libtty/asciicast.c", "libtty/files.c", "libstream/compress.c"],
  [("reporting", "libtty/files.c: ttyrec_w_write(), ttyrec_w_close()")],
  "fault injection by RLIMIT_FSIZE and full devices; monitor comparing the file with the calls' results", EXPL + "a failure of a compressor's last flush is a known finding.", observe=["results of calls", "files", "sanitizer reports"])
P("S08", "Separate objects may be used by separate threads",
  "Terminals, mirrors, recorders, timelines, players and streams of their own, and lookups of formats, may be created, used and freed by any number of threads at the same time: without data races, crashes or hangs, and each thread sees exactly what it would if it were alone.",
  ["schedules", "inputs"], "every set of threads, each with any sequence of calls on objects no other thread uses", "the tests use one thread (besides the library's own)",
  ["libtty/tty.c", "libtty/vtredir.c", "libtty/timeline.c", "libtty/files.c", "libtty/formats.c", "libtty/asciicast.c", "libstream/stream.c", "libstream/compress.c", "libstream/url_telnet.c", "libstream/url_termcast.c"],
  [("count of helper threads", "libstream/stream.c: filter()"), ("graphic characters by code", "libtty/vtredir.c: vtvt_char()")],
  "ThreadSanitizer and ASan over randomized concurrent workloads; digests of all each thread saw compared with those of a sequential run", EXPL + "one object shared by several threads isn't claimed, except as in R04.", observe=["what each thread reads, draws and is told", "race reports"])

PG_TESTS = "the tests run the programs on a few small files, in one environment; "
P("U01", "termrec records the session verbatim and doesn't get in the way",
  "During a termrec session the terminal shows exactly what the program inside writes and the program gets exactly what is typed, every byte of it, while the recording, in any format, compressed or not, holds that output byte for byte, headed (unless raw) by the terminal's encoding and size, with each piece stamped with the time it appeared. "
  "The session ends when the program does, with all its output recorded and the terminal's settings restored. The program finds its surroundings (directory, environment, signals, a controlling terminal, no files open but the terminal) as if run from a shell without termrec.",
  ["inputs", "schedules"], "every output, input and pace; every format, locale and size of terminal", PG_TESTS + "none checks what the terminal shows, what is typed, or times",
  ["rec/termrec.c", "rec/pty.c", "common/open_out.c", "common/rec_args.c"],
  [("copying loop", "rec/termrec.c: main()"), ("the program inside", "rec/pty.c: run()"), ("header of the recording", "rec/termrec.c: record_size()")],
  "offline checker: a scripted program inside and a terminal outside log what they write, see and when; recordings are decoded independently; ASan+UBSan",
  EXPL + "asciicasts are given valid text, nh_recorders no NULs; real time, checked against brackets.", observe=["outer terminal", "log of the inner program", "recording"])
P("U02", "termrec passes window sizes and signals on",
  "The program inside termrec sees the size of the terminal outside and each change of it, at whatever moment it comes, and the recording (unless raw) shows each new size at its place in the output, once. "
  "Signals sent to termrec reach the program, each once and no other process, and a session ended by one is recorded as any other.",
  ["schedules", "histories"], "every order of resizes, signals and output, at every point of the loop", "no test resizes a window or sends a signal",
  ["rec/termrec.c", "rec/pty.c"], [("signals and the wait", "rec/termrec.c: sigwinch(), sigpass(), main()")],
  "offline checker over generated histories, with resizes injected by link-time stand-ins just before termrec sleeps and just after it forks; ASan+UBSan",
  EXPL + "two changes of size before termrec wakes may show as one.", observe=["sizes and signals noted by the inner program", "recording"])
P("U03", "termrec never destroys a recording it wasn't told to",
  "Without a file name a recording goes to a new file named by the date and time, with a suffix if that is taken, even when several are started at once, and no existing file is touched; with one it goes there, in the format its extension says; with -a what was there is kept and the new session follows it. "
  "Whether others may read a new file is for the umask to say. With wrong arguments or an impossible file termrec says so, fails, runs nothing and leaves no file.",
  ["inputs", "schedules"], "every name, format, set of existing files and time zone; any number of recorders at once", PG_TESTS + "no taken names, appending or wrong arguments",
  ["common/open_out.c", "common/rec_args.c", "common/args.c", "rec/termrec.c"],
  [("naming", "common/open_out.c: open_out()"), ("arguments", "common/rec_args.c: get_rec_parms()")],
  "offline checker: the whole directory before and after, decoded independently; ASan+UBSan", EXPL + "appending is claimed for ttyrec, the format for which it is documented.", observe=["directory contents", "exit status and messages"])
P("U04", "termcat joins recordings into one, with nothing lost",
  "Whatever recordings, of any format and compression, are given to termcat, the one it writes holds all their output in order, with the delays each had and none between them, in the format its name says, and files that can't be read are reported and passed over. "
  "It fails if none can be read or the result can't be written whole, and only then.",
  ["inputs", "crash_points"], "every list of recordings, every kind of result", PG_TESTS + "no missing files, long lists or full disks",
  ["cat/termcat.c", "libtty/files.c", "libtty/formats.c", "libtty/asciicast.c"], [("joining", "cat/termcat.c: main()"), ("clock of the recorder", "libtty/files.c")],
  "offline checker: the result decoded independently and compared with the inputs generated; ASan+UBSan+LSan", EXPL + "compressed results on full disks belong to S07.", observe=["result", "exit status", "messages"])
P("U05", "termtime tells how long each recording is",
  "For every recording given, of any format and compression, termtime prints one line with its length, the sum of its delays to the microsecond, and its name, in the order given; those that can't be read are reported and left out. "
  "It fails only if there is none left or the answer can't be written.",
  ["inputs"], "every list of recordings", PG_TESTS + "a few short lengths", ["time/termtime.c", "libtty/formats.c"],
  [("summing", "time/termtime.c: main()")], "online monitor comparing answers with the generated recordings' lengths; ASan+UBSan+LSan", EXPL + "asciicast lengths within the rounding of their decimal fractions.", observe=["output", "exit status", "messages"])
P("U06", "termplay shows each frame when it is due, whatever keys are pressed",
  "At every moment of a termplay session the screen is the one drawn by the recording's frames up to the current position: time runs from the start at the chosen speed, pausing stops it, arrows and page keys move it by 10 s, 1 min and 10 min to the last frame not after it, but not before the start, r rewinds and pauses, Enter pauses and shows the next frame, + - and 1 change the speed only. "
  "Frames shown late after a stall of over a second put the clock back, shorter ones are caught up with, and data arriving late is shown on arrival; q, the interrupt key or a signal that ends it leave the terminal's settings as they were.",
  ["schedules", "histories"], "every sequence of keys, pauses, stalls and arrivals; every recording and speed", "no test runs termplay",
  ["play/player.c", "play/termplay.c", "libtty/timeline.c", "libtty/vtredir.c"],
  [("player thread", "play/player.c: player()"), ("keys", "play/player.c: replay(), adjust_pos(), adjust_speed(), adv_frame()"), ("loader", "play/termplay.c: loader()")],
  "online monitor under a deterministic virtual clock: what termplay draws is compared at marks with what a model of the player says is due; ASan+UBSan and TSan; storms of keys without synchronisation",
  EXPL + "moments within 0.2 ms of a frame are avoided; terminals at least as large as the recording; recordings start at time 0. Not following a growing file (-p) is a known finding.",
  state=[("fr, t0, tc, play_state", "frame shown, origin of the clock, position when paused", "play/player.c")], observe=["termplay's output", "virtual clock", "sanitizer reports"])
P("U08", "An abrupt end loses nothing but the end",
  "When termrec is killed at any moment, what is in the file plays as the beginning of the session, of an uncompressed recording all but the last few blocks shown, and a recording it was appending to is intact. "
  "When the program inside is killed the recording holds all it wrote. When the terminal goes away termrec and termplay end by themselves, without errors of memory, and the recording is complete up to there.",
  ["crash_points", "histories"], "every moment of the end and every kind of end", PG_TESTS + "and none of them ends a session other than by the program's exit", ["rec/termrec.c", "rec/pty.c", "play/termplay.c", "libtty/files.c", "libtty/formats.c", "libtty/asciicast.c", "libstream/compress.c"],
  [("the loop of a session", "rec/termrec.c: main()"), ("writing", "libtty/files.c: ttyrec_w_write()"), ("keys", "play/termplay.c: main()")],
  "fault injection (SIGKILL, hang-up) at random moments of real sessions; what is left is played and compared with what was shown; ASan+UBSan", EXPL, observe=["files left behind", "terminal output", "exit status"])
P("U07", "The programs do what their arguments say, or refuse and say why",
  "Options may be short or long, abbreviated, joined, with values joined or separate, in any order, before or after file names or cut off by --, and mean what help and the manual say. "
  "Unknown options and formats, missing, repeated or impossible values and too few or many files make a program fail with an explanation before it reads, writes, runs or shows anything; an unknown format gets the list of those there are, all of which work; -h explains every option and succeeds.",
  ["inputs"], "every command line", PG_TESTS + "mostly with no options", ["common/rec_args.c", "common/args.c", "play/termplay.c", "cat/termcat.c", "time/termtime.c", "doc/termrec.pod", "doc/termplay.pod"],
  [("termrec's options", "common/rec_args.c: get_rec_parms()"), ("termplay's options", "play/termplay.c: get_play_parms()"), ("formats", "common/args.c")],
  "online monitor over generated command lines with an independent account of what they mean: exit status, messages, files and recordings compared; ASan+UBSan", EXPL + "the speed given to termplay is judged by U06.", observe=["exit status", "messages", "directory contents", "recordings"])
P("U09", "The programs work the same where the system lacks functions they'd like to use",
  "Built without asprintf and vasprintf, forkpty, getpt, posix_openpt, ptsname, getopt_long or any of the compression libraries, using the replacements in the sources, the programs work as elsewhere: "
  "asprintf and vasprintf make the strings they should, of any length; a program inside termrec has a controlling terminal of the right size on which all that's written, typed, signalled and resized arrives; "
  "short options mean the same; recordings are named after a compression there is, and those kinds that remain keep working.",
  ["configurations", "inputs"], "every configuration", PG_TESTS + "built for the system they run on, where no replacement is ever compiled", ["sys/asprintf.c", "rec/pty.c", "common/rec_args.c", "common/open_out.c", "libstream/compress.c", "play/termplay.c"],
  [("asprintf", "sys/asprintf.c"), ("forkpty", "rec/pty.c: forkpty()"), ("default compression", "common/open_out.c"), ("kinds of compression", "libstream/compress.c: compressors, decompressors")],
  "the programs are built with a config.h that lacks these, and run through U01's sessions under ASan+UBSan with the same monitors; strings are compared with snprintf's", EXPL + "the old BSD way of finding a pseudo-terminal (/dev/ptyXY) and systems that aren't Unix aren't tried.", observe=["terminal output", "recordings", "the program's surroundings", "strings made"])
