"""Writes properties.jsonl (kept as a script so the file stays consistent)."""
import json

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })


ALLF = ["src/main.py", "src/extractors.py", "src/tools.py", "src/xrns/writer.py", "src/vgm/core.py"]

prop("C01", "Reported success means every requested output is complete and right",
     "If an extraction reports success, every output it was asked for (instrument JSON, .xrns song, track CSV; file or standard output) is complete, can be read back, and says exactly what the input log says. "
     "An output that could not be opened, fully written or closed (disk full, I/O error, interrupted or partial write, broken pipe, at any point) makes the extraction report failure (exception / non-zero exit) instead.",
     ["fault_sequences", "inputs", "configurations"],
     "every log, every choice of outputs, every sequence of partial writes, EINTR, ENOSPC, EIO, EPIPE and open/close errors at any I/O operation",
     "No test runs main.py, extractors.py, tools.py or xrns/writer.py at all, and none injects an I/O fault; the quantifier is over fault sequences.",
     ALLF,
     [("with-statement closes propagate flush/close errors", "src/tools.py smart_open; src/extractors.py extract_tracks_to_xrns/extract_instruments/extract_tracks"),
      ("exceptions are not caught between writer and caller", "src/main.py main"),
      ("zip central directory written on close", "src/xrns/writer.py writer")],
     observe=["exit status / exception of main", "bytes of the output files"])

prop("C02", "A killed or failed run never leaves a file that passes for finished",
     "If a run is killed, loses power, is cancelled or hits an I/O error at any point, then each output path afterwards holds either what was there before the run, or the complete correct result, or something recognisably unfinished (an instrument file that is not valid JSON; an .xrns that is not a readable archive containing Song.xml). "
     "It never holds a readable instrument bank or song with missing or wrong content.",
     ["crash_points", "fault_sequences", "inputs"],
     "every log, every crash, power-loss, cancellation or write-error point (including inside a write, with any subset of un-synced pages lost)",
     "Tests never write an output, let alone stop in the middle of writing one; the quantifier is over crash points.",
     ALLF,
     [("one JSON document, serialised before the file is opened", "src/extractors.py extract_instruments"),
      ("zip directory and CRC are written last", "src/xrns/writer.py writer"),
      ("outputs opened only after the whole log was processed", "src/main.py main")],
     observe=["durable bytes of the output files after the crash"])

prop("C03", "Running again after any failure gives the same result as a clean run",
     "After any history of killed, cancelled, failed or successful earlier runs (of the same or other logs) that wrote to the same output paths, a run without faults succeeds and leaves exactly the outputs it would have produced on an empty disk. "
     "Nothing left behind by an earlier run is kept, appended to or mixed in.",
     ["histories", "crash_points", "fault_sequences"],
     "every history of up to several runs with crashes and faults at any point, followed by a fault-free run",
     "Tests never run an extraction, so no test has a history of runs; quantifier over histories.",
     ALLF,
     [("outputs opened in truncating mode", "src/extractors.py; src/tools.py"),
      ("no state kept between runs", "src/main.py")],
     observe=["output files after the last run"])

prop("C04", "A bad or unreadable input fails the run and leaves outputs untouched",
     "If the input cannot be opened, hits a read error at any point, is not a VGM file, or is single-member gzip data that is damaged or cut short anywhere, then the extraction reports failure, and existing output files stay byte-for-byte as they were and no new ones are created. "
     "Damage inside gzip data may go unreported only if the outputs are nevertheless exactly those of the undamaged log. The input file is never modified.",
     ["fault_sequences", "inputs"],
     "every log, every read-error point, every truncation point and bit flip of the compressed form, with and without pre-existing outputs",
     "Tests feed whole in-memory buffers; one compressed header sample, no damaged one, no read error, and no output files exist in any test.",
     ["src/vgm/core.py", "src/main.py", "src/tools.py", "src/extractors.py"],
     [("whole log processed before any output is opened", "src/main.py main"),
      ("read errors, EOFError and gzip errors are not caught", "src/vgm/core.py; src/main.py"),
      ("the rest of the stream is read so that the gzip checksum is verified", "src/main.py main"),
      ("input opened read-only", "src/main.py main")],
     observe=["exit status / exception of main", "bytes of all files before and after"])

prop("C05", "A log cut short yields only events that were really logged",
     "If an uncompressed log is cut at any byte, extraction either fails or yields exactly the notes and instruments of the commands that lie wholly before the cut. "
     "It never invents an event, delay or register value out of an incomplete command.",
     ["crash_points", "inputs"],
     "every log and every byte position at which the recorder may have died",
     "Three tests call the private readers with short buffers; none cuts a command stream, and the quantifier is over all cut points of all logs.",
     ["src/vgm/core.py", "src/main.py"],
     [("fixed-size reads raise EOFError when short", "src/vgm/core.py _read8/_read16/_read32"),
      ("end of data only between commands ends iteration", "src/vgm/core.py Vgm.__next__, command")],
     observe=["notes per voice", "instrument JSON", ".xrns rows"])

prop("C06", "How the bytes arrive makes no difference",
     "The same log gives the same notes, instruments, song and log facts (version, size, chip clocks, chip support) whether it is plain or gzip-compressed (any level, block layout or number of members), comes from a file or through standard input, and in whatever pieces, delays or interrupted reads the operating system delivers it.",
     ["fault_sequences", "inputs", "configurations"],
     "every log, every split into reads, every buffer size, EINTR at any read, every gzip layout, file / seekable stdin / pipe",
     "Tests read from BytesIO in one piece; the only compressed sample has no commands, and stdin is never used.",
     ["src/vgm/core.py", "src/tools.py", "src/main.py"],
     [("gzip detection and transparent decompression", "src/vgm/core.py reader"),
      ("buffered reads retry short and interrupted reads", "src/tools.py smart_open"),
      ("'-' selects standard input", "src/tools.py smart_open")],
     observe=["output files", "notes per voice"])

prop("C07", "Results depend only on the log and the arguments",
     "The extracted notes, instruments and song content are a function of the log bytes and the command-line arguments alone, and whether the run succeeds is too: the wall clock (any date, also jumping during the run), time zone, hash seed, random state, process id and any earlier extractions in the same process make no difference.",
     ["configurations", "histories", "schedules"],
     "every log; clocks from before 1980 to after 2107 with jumps at any reading; time zones; hash seeds; any sequence of earlier extractions (successful or failed) in the process",
     "Tests run each function once, in one process with PYTHONHASHSEED=0 and today's date; nothing about clocks, order or history can be seen from one run.",
     ["src/xrns/writer.py", "src/vgm/core.py", "src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/extractors.py", "src/main.py"],
     [("fresh State per extraction, copies stored in configs", "src/main.py process_vgm_file; src/vgm/ym2151/state.py"),
      ("archive entry date kept in the range zip can store", "src/xrns/writer.py writer"),
      ("ticks sorted before use", "src/vgm/ym2151/state.py ticks")],
     observe=["output contents and exit status across environments"])

prop("C08", "Extractions running side by side do not disturb each other",
     "Any number of logs can be read and extracted at the same time, in one process (several open readers, several threads) or in several processes that share the disk, each with its own output paths. "
     "Under every interleaving, also when some of them fail or are killed, each of the others gives exactly the notes, instruments, song and log facts (version, size, chip clocks, chip support) it gives when run alone.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of two to four logs and every interleaving of their processing, down to single source lines and bytecodes, with I/O errors in or kills of some of them",
     "Tests use one reader at a time and no threads; the quantifier is over schedules.",
     ["src/vgm/core.py", "src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/extractors.py", "src/main.py", "src/xrns/xrns_serializer.py"],
     [("all reader facts are per reader", "src/vgm/core.py Vgm"),
      ("all chip state is per State object", "src/vgm/ym2151/state.py State.__init__"),
      ("shared default arguments are never written", "src/vgm/ym2151/config.py Config; src/xrns/xrns_serializer.py")],
     state=[("clocks", "chip clocks of one log", "src/vgm/core.py Vgm"),
            ("configs/_channel_configs/_channel_key_presses", "per-extraction chip state", "src/vgm/ym2151/state.py")],
     observe=["reader attributes", "notes per voice", "output files"])

prop("C09", "Voices do not leak into each other, however their writes interleave",
     "From its first key-on onward, the notes a voice plays (time, pitch, stereo side, on/off) and the full sound settings of each of them depend only on the writes to that voice and to the chip-wide registers, and on the delays. "
     "Re-ordering the writes of different voices between two delays, or adding or removing any other voice's writes, changes nothing for it; the noise register belongs to the eighth voice only.",
     ["schedules", "histories"],
     "every set of eight voice programs and every interleaving of their writes at equal times; every subset of voices silenced",
     "Tests poke one channel and look at that channel (a few look at a neighbour); no test compares two interleavings.",
     ["src/vgm/ym2151/state.py"],
     [("channel and operator decoded from the register address", "src/vgm/ym2151/state.py State.apply"),
      ("separate channel/note configuration object per voice", "src/vgm/ym2151/state.py State.__init__")],
     observe=["notes per voice", "instrument content referenced by each note"])

prop("C10", "A note's instrument is the chip state at its key-on, and stays so",
     "The instrument recorded for a key-on has exactly the chip-wide, voice and four operators' settings (every field at its full hardware width) and the set of enabled operators that were in force at that moment, and the note has the pitch and stereo side then in force. "
     "Nothing written later changes an instrument or note already recorded.",
     ["histories", "schedules"],
     "every history of register writes by all voices and of key-ons between them, checked after every key-on and at the end",
     "Register decoding tests set one field and read it back; the tests about stored configurations are among those that fail at the pinned commit, so nothing guards snapshots, and the quantifier is over histories.",
     ["src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/vgm/ym2151/note.py", "src/extractors.py"],
     [("deep copies stored at key-on", "src/vgm/ym2151/state.py State.apply; src/vgm/ym2151/config.py __deepcopy__"),
      ("register decoding", "src/vgm/ym2151/state.py State.apply"),
      ("JSON form of every field", "src/vgm/ym2151/config.py repr_json, ConfigEncoder")],
     observe=["instrument JSON after every key-on and at the end", "notes per voice"])

prop("C11", "The instrument bank has no duplicates and no gaps",
     "In every extraction the instruments are numbered 0,1,2,... in the order in which they were first played, no two of them have the same settings, every one is used by at least one note, and every key-on refers to the instrument that has exactly its settings. "
     "Going back to earlier settings reuses the earlier number.",
     ["histories", "schedules"],
     "every history of settings and key-ons on all voices, including returns to earlier settings and settings that differ in a single field",
     "The tests that look at re-use of configurations fail at the pinned commit; none tries pairs differing in one field across all fields.",
     ["src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/extractors.py"],
     [("search for an equal configuration before adding one", "src/vgm/ym2151/state.py State.apply"),
      ("field-wise equality", "src/vgm/ym2151/config.py __eq__, Config.compare")],
     observe=["instrument JSON", "config numbers of notes and .xrns rows"])

prop("C12", "Every key event is recorded exactly once, in order, at its exact time",
     "Every key-on in the log, and every key-off that comes after the log's first key-on, appears exactly once in its voice's notes, in log order, stamped with the sum of all delays before it; no other events appear. "
     "This includes events at time zero, repeated key-ons and key-offs, and several events of one voice at the same time.",
     ["histories", "schedules", "inputs"],
     "every history of key events and delays (every delay encoding, any length of song)",
     "The tests on key events fail at the pinned commit, no test mixes delays with key events, and sums of delays over a history are never looked at.",
     ["src/vgm/ym2151/state.py", "src/vgm/core.py", "src/vgm/command.py", "src/main.py"],
     [("sample clock advanced by every delay", "src/main.py process_vgm_file; src/vgm/ym2151/state.py beat"),
      ("key-on/off register appends one note", "src/vgm/ym2151/state.py State.apply"),
      ("first key-on remembered", "src/vgm/ym2151/state.py _first_beat")],
     observe=["notes per voice", ".xrns rows at one sample per row"])

prop("C13", "Traffic for other chips and data blocks never disturbs the YM2151 result",
     "Commands for other chips, stream control, data blocks of any size (also with the second-chip bit set) and writes to registers without a sound setting may appear anywhere in a log, with any operand bytes, without changing the extracted notes and instruments, except that a command which by definition also waits moves later events by exactly that delay.",
     ["histories", "inputs", "schedules"],
     "every log and every insertion of other commands (all ids, any operands, data blocks from 0 bytes to many megabytes) at any point between commands",
     "One test walks once through the 256 command ids with fixed operands and tiny blocks and only looks at the ids.",
     ["src/vgm/core.py", "src/vgm/command.py", "src/main.py"],
     [("operand length per command id", "src/vgm/core.py command"),
      ("only YM2151 and wait commands are acted on", "src/main.py process_vgm_file")],
     observe=["notes per voice", "instrument JSON", ".xrns rows"])

prop("C14", "Nothing after the end marker counts",
     "Bytes after the log's end-of-data command (a GD3 tag, other metadata, padding, garbage, or another log) never change the extracted result and never make the extraction fail.",
     ["inputs", "fault_sequences"],
     "every log and every trailing byte string, delivered in any pieces, plain or compressed",
     "Test logs stop at the end marker or before it.",
     ["src/main.py", "src/vgm/core.py"],
     [("processing stops at the end-of-data command", "src/main.py process_vgm_file")],
     observe=["notes per voice", "output files", "exit status"])

prop("C15", "The song grid shows each voice's last event of every row, and nothing else",
     "In the .xrns song, track v row r of pattern p (64 rows each, played in order) shows the last event of voice v whose time falls in row 64p+r at the chosen row length: its note name and octave or Off, its instrument number in hex, and its stereo side; rows without an event are empty and no event is placed anywhere else. "
     "There are eight tracks and exactly as many instruments as in the instrument bank.",
     ["schedules", "histories", "inputs"],
     "every schedule of eight voices, every row length, including events on row and pattern boundaries and several events of one voice in one row",
     "No test covers extractors.py or src/xrns.",
     ["src/extractors.py", "src/xrns/parts/pattern.py", "src/xrns/xrns_serializer.py", "src/xrns/writer.py", "src/vgm/ym2151/note.py"],
     [("row = sample // row length, 64 lines per pattern", "src/extractors.py extract_tracks_to_xrns"),
      ("one line per row, later event replaces earlier", "src/xrns/parts/pattern.py add_note"),
      ("pattern sequence lists all patterns in order", "src/extractors.py; src/xrns/xrns_serializer.py")],
     observe=["Song.xml in the .xrns archive"])

prop("C16", "The song's tempo follows the sequencer's clock",
     "The song's tempo is the whole number of beats per minute at which four rows of the chosen row length (in 1/44100 s samples) make one beat, rounded down. "
     "When no row length is given and the sequencer kept a steady clock (a key-on on every row, at least two of them starting in the first 32000 samples, 1000 to 7999 samples per row), the row length used is exactly that of the sequencer's clock.",
     ["schedules", "inputs"],
     "every steady clock in the stated range, every start phase, every assignment of rows to voices, every order of voices within a row, every explicit row length",
     "No test runs the estimate or looks at the tempo.",
     ["src/vgm/ym2151/state.py", "src/extractors.py", "src/main.py"],
     [("self-correlation of key-on times", "src/vgm/ym2151/state.py ticks_per_note"),
      ("beats per minute", "src/extractors.py extract_tracks_to_xrns")],
     observe=["BeatsPerMin and rows in Song.xml"])

prop("C17", "Every file is closed again, whatever happens",
     "When an extraction returns, by success, by an error at any I/O operation, or by a cancellation (Ctrl-C) during any I/O operation, every file it opened has been closed without waiting for garbage collection, and standard input and output are still open.",
     ["fault_sequences", "crash_points"],
     "every I/O operation of every kind of run as the point of an error or a cancellation",
     "No test opens a file through the tool.",
     ["src/tools.py", "src/extractors.py", "src/main.py", "src/xrns/writer.py"],
     [("context managers around every open", "src/tools.py smart_open; src/extractors.py"),
      ("standard streams are left open", "src/tools.py smart_open")],
     observe=["open handles after the call"])

prop("C18", "The track table lists every row once and every voice's last event in it",
     "The CSV track table has one line for each row from row 0 to the row of the last event, in order and without repeats, and each voice's cell in a row shows that voice's last event in that row (empty if none); a song without events gives the header only. "
     "The schedule of the other voices does not change a voice's column.",
     ["schedules", "histories", "fault_sequences"],
     "every schedule of eight voices and every row length, written in any pieces by the operating system",
     "No test covers extractors.py.",
     ["src/extractors.py", "src/vgm/ym2151/note.py"],
     [("merge of eight note iterators by time", "src/extractors.py extract_tracks")],
     observe=["CSV file"])

prop("C19", "Every extraction ends",
     "For every input, including arbitrary bytes after a valid header, damaged compressed data, and data-block sizes far beyond the file, and with reads that come in pieces, are interrupted, or fail, extraction ends (with success or failure) after an amount of work, and with an amount of memory filled, bounded by the size of the input plus the number of song rows, whatever sizes the input claims; it never waits for data that cannot come.",
     ["inputs", "fault_sequences"],
     "every byte string behind a valid header, every read fault sequence, with an explicit step budget",
     "Tests use well-formed logs only; termination is about all inputs.",
     ["src/vgm/core.py", "src/main.py", "src/extractors.py", "src/vgm/ym2151/state.py"],
     [("end of data stops iteration", "src/vgm/core.py Vgm.__next__"),
      ("every command consumes at least its id byte", "src/vgm/core.py command"),
      ("every pass of the CSV merge consumes an event", "src/extractors.py extract_tracks")],
     observe=["steps executed until the call returns"])

prop("C20", "The guessed row length is the best self-match, however the clock behaved",
     "When no row length is given, the row length used is the shift from 1000 to 7999 samples under which the song's key-on times match themselves best, the smallest one if several do. "
     "Only the distinct key-on times in the first 32000 samples count, and the best shift is the one with the fewest misses: one for every key-on time that has no key-on exactly one shift before it, and one for every key-on time that has none exactly one shift after it although that would not be past the last of them. "
     "This holds however the sequencers' clocks behaved: jitter, drift, stalls, missed rows, tempo changes, several sequencers at once, or no key-on at all.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of key-on times: every number of sequencers and every jitter, drift, stall, missed row and tempo change of their clocks",
     "No test runs the estimate.",
     ["src/vgm/ym2151/state.py", "src/main.py"],
     [("self-correlation of key-on times", "src/vgm/ym2151/state.py ticks_per_note"),
      ("key-on times are collected at key-on", "src/vgm/ym2151/state.py apply")],
     observe=["rows of the events in the .xrns song and the track table, and the song's tempo"])

prop("C21", "Song.xml conforms to the Renoise document schema",
     "The Song.xml written for any song is an instance of the Renoise song document, version 65.",
     ["inputs"],
     "every song",
     "No test renders a song.",
     ["src/xrns/xml/song/renoise_song65.py", "src/xrns/xrns_serializer.py"],
     [("generated data classes", "src/xrns/xml/song/renoise_song65.py")],
     observe=["Song.xml"])

prop("C22", "A run touches nothing but the outputs it was asked for",
     "An extraction creates, changes, renames and removes no file but the outputs it was asked for. Whatever else lies there (the input, outputs it was not asked for, files with similar names, in the same or any other directory) stays as it was, with its permissions and times, also when the run is killed. "
     "When it returns, by success, by an error or by Ctrl-C at any I/O operation, it has left no other file or new empty folder behind (no temporary file, cache or lock).",
     ["fault_sequences", "crash_points", "configurations"],
     "every log, every choice of outputs, every set of other files, and every error, cancellation, failed allocation or kill at any I/O operation",
     "No test runs an extraction or looks at a directory afterwards.",
     ALLF,
     [("outputs are opened by the given names only", "src/extractors.py; src/tools.py smart_open; src/xrns/writer.py")],
     observe=["all files of the simulated machine before and after a run"])

prop("C23", "The log facts are those of the header, whatever else stands in it",
     "For every header, the reader reports its version (the BCD digits as a decimal number), size (end-of-file field plus 4), and the clocks of YM2413 and YM2151 (the YM2413's for both before version 1.10) exactly, and supports a chip if and only if its clock is not zero. "
     "Commands are read from where the header says since version 1.50, and from 0x40 before, and no other header field makes a difference. "
     "All this holds however the bytes arrive and whether it is asked before, between or after the commands.",
     ["inputs", "fault_sequences", "configurations"],
     "every version, every clock and size value, every start of the commands, any bytes in the other fields, every split into reads, EINTR, gzip layouts, file / stdin / pipe",
     "Tests read three fixed headers from memory, in one piece, once.",
     ["src/vgm/core.py"],
     [("header fields decoded once when the log is opened", "src/vgm/core.py Vgm.__init__, _read_bcd"),
      ("facts answered from them", "src/vgm/core.py Vgm.size, supports, clock")],
     observe=["version, size(), clock(), supports() of a reader", "notes per voice"])

prop("C24", "Writing an output changes nothing else",
     "Writing an output only reads the extracted state. From one state, outputs of every kind can be written in any order, any number of times, with any row lengths, midway through a log and again after more of it was applied, also after earlier writes failed or were cancelled, by several threads at the same time, and with states of other logs alive in the same process. "
     "Each output that is written says exactly what its log says up to there; writing it (also when that fails) or asking for the row length or the key-on times changes neither the notes nor the instruments of any state, nor what later commands do, nor any output written before.",
     ["histories", "fault_sequences", "schedules"],
     "every log, every sequence of reading on, writing, failing and asking, over any number of states in one process, and every interleaving of threads that write at the same time",
     "Tests write at most one output from one state.",
     ["src/extractors.py", "src/vgm/ym2151/state.py", "src/xrns"],
     [("outputs are computed from the state on each call", "src/extractors.py"),
      ("every song starts from a default of its own", "src/xrns/parts/song.py, globals.py, pattern.py, track.py"),
      ("settings copied when an instrument is recorded", "src/vgm/ym2151/state.py State.apply")],
     observe=["notes per voice and instruments of every state after every step", "all output files after every step"])

prop("C25", "An interrupted run stops at once and says so",
     "If a run is interrupted (Ctrl-C, or a signal handler that exits) at any moment, while it reads, searches for the row length, or writes, then it ends with that interruption (or another failure), never with success, and at once: after the interruption it opens no further output, does not read on in the log, and does no more than a bounded amount of work, whatever the size of the log. A second interruption while it ends changes nothing about that.",
     ["schedules", "fault_sequences"],
     "every I/O operation and every source line of a run as the moment of the interruption, any log, file or pipe, any outputs",
     "No test interrupts anything.",
     ALLF,
     [("nothing catches interruptions", "src/main.py; src/extractors.py; src/vgm/core.py"),
      ("the search for the row length only expects to run out of times", "src/vgm/ym2151/state.py State.ticks_per_note"),
      ("files are closed on the way out, nothing else is done", "src/tools.py smart_open")],
     observe=["how the run ended", "I/O operations and source lines after the interruption"])

prop("C26", "What a run says of the row length is true",
     "Every run prints exactly one row length, and it is the one its song is laid out with: the one given, or else the one found. "
     "A run that searches for it also prints the ten best row lengths, best first and the shorter first among equals, each with the percentage 100 * (1 - misses / (2n - 1)) for n distinct key-on times in the first 32000 samples, misses counted as for the guessed row length (100% without any key-on). "
     "This holds however the sequencers' clocks behaved, however standard output takes the text, and whether or not the instruments go to standard output as well.",
     ["inputs", "schedules", "fault_sequences"],
     "every song, every behaviour of the sequencers' clocks, every way in which standard output takes what is written",
     "No test looks at what is printed.",
     ["src/vgm/ym2151/state.py", "src/main.py"],
     [("misses counted per shift, sorted, the best ten printed", "src/vgm/ym2151/state.py State.ticks_per_note"),
      ("the row length printed is the one handed to the writers", "src/main.py main")],
     observe=["standard output", "the .xrns song's rows"])

with open(__file__.rsplit("/", 1)[0] + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
