"""Writes MANIFEST.json (kept so that the notes have one readable source)."""
import json, os
T = "deterministic simulation with fault injection"
N = {
 "C01": "seeded search over interleavings of 2-3 simulated threads (switches at line, sampled opcode, lock and I/O events); every call compared with a pristine forked process",
 "C02": "seeded search over call histories with KB overrides, failing calls, edited arguments and results, re-entrant linkers and a second package instance; oracle: pristine process",
 "C03": "asynchronous exceptions raised at seeded line events inside calls; later calls compared with a pristine process",
 "C04": "real requests/urllib3/http.client over simulated sockets: seeded segmentation, framing, compression, redirects, cuts, error statuses, disk faults; oracle: extraction of the served bytes",
 "C05": "faults in network, disk, converter, KB and linker operations; after each call temporary files, descriptors, sockets and child processes are inventoried",
 "C06": "simulated converter process and read syscalls: seeded segmentation, death points, read errors; oracle: extraction of the complete text",
 "C07": "crash and power-loss at every mutation of a recorded operation log (seeded subset of reorderings), write errors, concurrent calls on one file; oracle: allowed file contents",
 "C08": "exceptions injected at seeded line events below the entry points, bad KB data, network and disk faults; every entry compared with the item processed alone",
 "C09": "linker callback failing at seeded invocations; oracle: same call with a linker returning nothing there, plus ownership of every record id",
 "C10": "fresh interpreters in seeded environments (hash seed, locale, TZ, cwd, import order, descriptors); oracle: baseline process",
 "C11": "simulated clock: processes started and called at seeded instants, steps and jumps inside calls; oracle: process started at the instant of the call",
 "C12": "KB open/read faults at seeded operations, malformed entries at seeded positions, failing iterables, two loading threads; oracle: pristine process",
 "C13": "open/read/seek faults after the conversion, disappearing documents, damaged link data; oracle: the same text without link data",
}
NOTE = ("Exploration: a clean run is evidence over the sampled seeds, not a proof. Trusted: the seams in sim/world.py and sim/core.py model the operating "
        "system, converter, sockets, clock and scheduler faithfully; CPython, pypdf, libmagic and pdftotext are used as they are. Decided by: ")
NA = "pure function of its input: no schedule, clock, I/O, fault or other party for it to depend on, so simulation would only be input generation; the effects of schedules and faults on the same results are decided by %s"
NAS = {"C14": "C01-C03, C06", "C15": "C01-C03, C11", "C16": "C06", "C17": "C01-C03, C12", "C18": "C10, C13", "C19": "C01, C05 (no call blocks)"}
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python setup.py",
     "checks": [{"property": k, "quick_cmd": "./check.py run " + k, "thorough_cmd": "VERIF_TIER=thorough ./check.py run " + k,
                 "evidence_file": "evidence/%s.json" % k, "technique": T, "level": "exploration", "level_note": NOTE + v + "."} for k, v in N.items()],
     "not_applicable": [{"property": k, "reason": NA % v} for k, v in NAS.items()],
     "notes": "No hooks were needed in /repo: all seams are standard-library functions replaced inside the checking process. See DESIGN.md."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
