"""Writes MANIFEST.json."""
import json

TECH = "deterministic simulation with fault injection"
C = {
 "C01": ("fault injection into simulated disk/streams, oracle: reference model", "exploration",
         "Seeded search over I/O faults placed on operations that a dry run performed (open, write, close, read; files, stdout; partial and sticky errors, full disk). A success must have outputs equal to the reference model."),
 "C02": ("crash/power-loss/error enumeration over every raw I/O operation of simulated runs", "fault_enumeration",
         "For each seeded scenario every raw operation on an output is a stopping point (capped, then sampled). Power loss is modelled as lost, truncated or zeroed unsynced pages."),
 "C03": ("simulated crash/restart histories, oracle: clean run and reference model", "exploration",
         "Seeded histories of up to four stopped runs over one simulated disk, then a fault-free run."),
 "C04": ("damage and read-fault injection into the simulated input", "exploration",
         "Seeded damage of single-member gzip data, read errors at operations found by a dry run, missing files, wrong magic."),
 "C05": ("recorder crash at every byte of simulated logs, oracle: reference model", "fault_enumeration",
         "Every cut byte of each seeded log (capped for long logs)."),
 "C06": ("simulated delivery: short reads, EINTR, pipes, gzip layouts; oracle: reference model", "exploration",
         "Each log is delivered in several seeded ways; all must equal the model."),
 "C07": ("simulated clock, time zone, entropy, hash seed and process history; oracle: reference model", "exploration",
         "Sequences of extractions in one simulated process under odd clocks with jumps."),
 "C08": ("seeded deterministic scheduler of threads and processes with switches at I/O, lines, bytecodes", "exploration",
         "Real threads, one runs at a time, every switch drawn from the seed and recorded; also processes with module copies of their own on one disk, some of them failing or killed, and several readers advanced in turn."),
 "C09": ("seeded interleavings of simulated voice actors, compared across schedules and to the model", "exploration",
         "The same voice programs recorded under several schedules and with voices silenced."),
 "C10": ("simulated sound-driver histories, register-file reference model at every key-on", "exploration",
         "Whole extractions and stepwise runs with snapshots to see later changes."),
 "C11": ("simulated sound-driver histories, bank invariants and reference model", "exploration",
         "Invariants after every key event and over the final bank."),
 "C12": ("simulated sound-driver histories on a virtual 44.1 kHz clock, exactly-once/order/time check", "exploration",
         "Notes of every voice against the key events and delay sums of the recorded history."),
 "C13": ("foreign-chip actor injected into simulated histories, oracle: reference model", "exploration",
         "Foreign commands at arbitrary points with hostile operands, blocks up to 16 MiB; every command id at least once. One known finding (0x68) is listed."),
 "C14": ("trailing data injected after the end of simulated logs, oracle: reference model", "exploration",
         "GD3 tags, garbage, partial commands, other logs, plain and compressed, files and pipes."),
 "C15": ("seeded schedules of voices around row/pattern boundaries, oracle: reference grid", "exploration",
         "All cells of the song are compared with the model's grid."),
 "C16": ("simulated sequencer clocks, oracle: exact tempo", "exploration",
         "Given row lengths and steady sequencer clocks with key-offs and other voices in between."),
 "C17": ("error/cancellation enumeration over every raw I/O operation, open-handle invariant", "fault_enumeration",
         "Handles of the simulated machine that are open, or were closed only by garbage collection, are reported."),
 "C18": ("seeded schedules of voices around row boundaries, oracle: reference table", "exploration",
         "All rows of the table are compared with the model's."),
 "C19": ("hostile inputs and read faults under a step budget (bounded liveness)", "exploration",
         "Budget of executed source lines and raw operations generous by two orders of magnitude."),
 "C20": ("simulated sequencers with clock faults (jitter, drift, stalls, missed rows, tempo changes), oracle: reference self-match", "exploration",
         "Two far events in every song sit on the first and last sample of a row, so any other row length shows."),
 "C22": ("error/cancellation/kill enumeration over every raw I/O operation, all files of the simulated machine before and after", "fault_enumeration",
         "Directories hold other files with telling names; writes outside the simulated disk are caught in an overlay and count too."),
 "C23": ("simulated recorders with arbitrary headers, delivered in pieces and through pipes; oracle: reference header", "exploration",
         "Versions, clocks, sizes and starts of the commands drawn independently, the rest of the header filled with junk."),
 "C26": ("simulated sequencers with clock faults, standard output taken in pieces; oracle: reference self-match", "exploration",
         "The printed row length and the ten printed estimates with their percentages are compared with the reference; all other printed text is ignored."),
 "C25": ("interruption enumeration over raw I/O operations and over places in the code (rare lines get their share), once or twice", "fault_enumeration",
         "How the run ended, and the I/O operations and source lines after the interruption. Interruptions due inside a destructor, where Python discards exceptions, are delivered after it."),
 "C24": ("seeded histories of reading, writing (with I/O faults and cancellations, in one thread or several under a seeded schedule) and asking over several states, oracle: reference model of each prefix", "exploration",
         "All states and all outputs written so far are judged after every step."),
}
TRUST = (" Trusted: the reference model and the simulated machine in /verif/sim (own code), CPython's io/gzip/zipfile/json. Not exhaustive: "
         "only the seeded runs counted in the evidence file were explored.")
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                "evidence_file": f"evidence/{p}.json", "technique": f"{TECH}: {t}", "level": lv, "level_note": n + TRUST}
               for p, (t, lv, n) in C.items()],
    "not_applicable": [
        {"property": "C21", "reason": "Conformity of one document to a schema that is not in the repository; a pure function of the song, independent of schedules, time and faults. What a run writes under faults is C01, C02 and C15."},
    ],
    "notes": "No hooks in /repo: every seam (open, os.*, time, datetime, random, sys.std*, threading.Lock, sys.settrace) is patched from outside while a simulated process runs. See DESIGN.md. known_findings.json lists findings and repairs. Replay: /opt/venv/bin/python sim/run.py --replay FILE.",
}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
