"""Writes properties.jsonl (kept so that the list has one readable source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

API = "refextract/references/api.py"; ENG = "refextract/references/engine.py"; KBS = "refextract/references/kbs.py"
TAG = "refextract/references/tag.py"; EXT = "refextract/extract.py"; DOC = "refextract/documents/pdf.py"
PDF = "refextract/references/pdf.py"; REC = "refextract/references/record.py"; RGX = "refextract/references/regexs.py"
AUT = "refextract/authors/regexs.py"; TXT = "refextract/references/text.py"; FND = "refextract/references/find.py"; DTX = "refextract/documents/text.py"
PUB = ["extract_references_from_string", "extract_references_from_file", "extract_references_from_url", "extract_journal_reference", "refextract.extract.*"]

p("C01", "Concurrent extractions do not influence each other",
  "When several threads of one process run extractions at the same time, with the same or different inputs, knowledge-base overrides, reference formats and linkers, every call returns exactly what it would return if it ran alone in a fresh process, and raises only if it would raise alone. No interleaving makes a call block forever.",
  ["schedules", "configurations"],
  "all interleavings of two or more extraction calls (any mix of the public entry points), all combinations of their KB overrides",
  "The tests are single-threaded; they run one interleaving (none) and only check the KB loader in sequence.",
  [KBS, TAG, AUT, ENG, API],
  [("knowledge bases are resolved per call and the loaded-KB cache is only updated under a lock; a call keeps the KB objects it resolved", KBS + " get_kbs"),
   ("lazy author regexps are built idempotently", AUT + " get_author_regexps")],
  [("loaded-KB cache", "last KB loaded per type, shared by all calls", KBS + " get_kbs"), ("lazily built author patterns", "process-wide", AUT)], PUB)

p("C02", "A result depends only on the call's own arguments, not on call history",
  "Whatever sequence of extraction calls came before - with other knowledge-base overrides of any type, with calls that failed, with override objects or returned results later modified by the caller, or with a linker that itself calls the library - a call returns exactly what a fresh process would return for the same arguments. Returned results and the caller's arguments are never changed by later calls.",
  ["histories", "configurations"],
  "all finite histories of public calls over all KB types and forms (file path, mapping, list), formats, linkers, including failing calls, in-place edits of argument or result objects, and re-entrant calls",
  "Each test makes one call from whatever state pytest left; the only history test is two journal-dict loads in a row.",
  [KBS, TAG, ENG, API, EXT],
  [("cache entries are keyed by the value of the KB source and replaced when it changes; loaded KBs are read-only during parsing", KBS + " get_kbs; " + TAG + " tag_reference_line")],
  [("loaded-KB cache", "last KB loaded per type", KBS + " get_kbs")], PUB)

p("C03", "An extraction aborted at any instant leaves later extractions exact",
  "If an extraction is cut short at an arbitrary instant by an asynchronous exception (a timeout, a task cancellation, an interrupt or memory exhaustion) and the process carries on, every later extraction still returns exactly what a fresh process would return and none blocks.",
  ["crash_points", "histories"],
  "every line boundary of the library's code at which an asynchronous exception can be raised, for every public call, KB override and exception type, followed by any later calls",
  "No test interrupts a call; abort points are only reachable by injecting exceptions inside the library.",
  [KBS, AUT, TAG, ENG, API],
  [("a KB is recorded as loaded only after it was loaded completely; locks are released on the way out; lazily built globals are assigned only when complete", KBS + " get_kbs; " + AUT)],
  [("loaded-KB cache and its record of inputs", "must agree after any abort", KBS)], PUB)

p("C04", "Extraction from a URL equals extraction of the document served there",
  "Extracting from a URL gives the same references as extracting from a local file with the served bytes, however the transfer is framed, segmented, compressed, redirected or buffered and whatever chunk size and URL are used. A transfer that is refused, reset, or detectably truncated, a failure to store the download, or an HTTP error status never yields references: the call raises, and for HTTP error statuses (4xx and 5xx) it raises FullTextNotAvailableError.",
  ["fault_sequences", "inputs", "configurations"],
  "all segmentations, framings, redirect chains, error statuses and cut points of the HTTP exchange; all write-error points of the local copy; all chunk sizes",
  "Tests serve whole canned bodies from a mocked adapter that bypasses sockets; no transfer is ever cut, segmented, compressed, redirected or stored on a failing disk.",
  [API], [("streamed download to a temporary file, status check, file closed before it is parsed", API + " extract_references_from_url")],
  [("temporary download", "the served bytes", API)], ["extract_references_from_url", "refextract.extract.extract_references_from_file_url"])

p("C05", "No residue: temporary files, descriptors and processes are gone after a call",
  "When an extraction call returns or raises - whatever network, disk, converter, knowledge-base or linker fault it met - no temporary file it created is left in the temporary directory or next to the document, no file it opened is still open, and every converter process it started has terminated and been reaped.",
  ["fault_sequences", "inputs"],
  "all single and multiple faults in network, disk, converter, KB and linker operations performed by one call, for every entry point (faults of the clean-up calls themselves excepted)",
  "Tests never look at the temporary directory, descriptors or children, and never fail an operation half-way.",
  [API, ENG, DOC, KBS, PDF], [("temporary download removed in a finally clause; files and the converter process managed by with-statements", API + "; " + DOC + "; " + ENG)],
  [], ["the temporary directory", "/proc/self/fd", "child processes"])

p("C06", "Document text acquisition is all or nothing",
  "The references extracted from a local file are those of the complete document text, however the operating system or the PDF-to-text converter delivers it (short reads, arbitrary pipe segmentation, interrupted calls, slow start or exit). If the text cannot be obtained completely - the converter is killed or fails after producing part of its output, or a read fails - the call raises instead of returning references of a partial document.",
  ["fault_sequences", "inputs"],
  "all segmentations of the converter's output and of file reads; all points at which the converter dies or a read fails, for PDF and plain-text documents, in both conversion passes",
  "Tests run the converter to a successful end every time, with the segmentation the kernel happens to choose.",
  [DOC, ENG, API], [("converter output is read to end of file and its exit status checked", DOC + " convert_PDF_to_plaintext"), ("text files are read in full", ENG + " get_plaintext_document_body")],
  [("converter process", "pdftotext child and its stdout pipe", DOC)], ["extract_references_from_file"])

p("C07", "The caller's document file is never damaged",
  "At every instant, including after a crash or power loss at any point, after an I/O error, and while several calls work on the same file, the document file a caller passed holds either its original bytes or the complete document with only the junk before the PDF header and after the last end-of-file marker removed; a file that has no PDF header followed by an end-of-file marker is never modified. Extraction can be repeated on it afterwards with the same result.",
  ["crash_points", "schedules", "fault_sequences", "inputs"],
  "all crash and power-loss points, write/rename/truncate errors and interleavings of concurrent calls, for documents with leading junk, trailing junk, both, neither, no markers or markers in odd order",
  "One test converts one packed PDF once; no test crashes, fails a write, or runs two calls on one file.",
  [ENG], [("junk is stripped through a complete temporary copy that atomically replaces the file, or by a single truncation", ENG + " clean_pdf_file")],
  [("document file", "caller-owned file on disk", ENG)], ["bytes of the document file", "extract_references_from_file"])

p("C08", "Service functions contain failures and keep results aligned",
  "The batch functions for the web service never raise because of a failing item or dependency: extraction from a list returns exactly one entry per raw reference, in order, where an item whose extraction fails, or that yields no reference, degrades to its raw text and all other items are exactly as if processed alone; journal-info extraction returns exactly one entry per publication info, in order, or nothing at all; text and URL extraction return either the complete extraction or nothing.",
  ["fault_sequences", "inputs", "histories"],
  "every point at which the processing of any subset of items fails (exceptions inside the library, unusable items, unreadable or malformed KB data, network and disk faults), all batch compositions",
  "Tests pass well-formed items only, plus a single always-failing mock; no failure hits the middle of a batch.",
  [EXT, API], [("per-item exception handling with raw-text fallback", EXT + " extract_references_from_list"), ("whole-call exception handling returning nothing", EXT)],
  [], ["refextract.extract.*"])

p("C09", "A failing linker costs only the link",
  "If the linker callback fails to resolve an element by raising a lookup error (KeyError or IndexError) at any of its invocations, the extraction result is exactly the one obtained had the callback returned nothing at those invocations: no other field, reference or link changes. Any other exception of the callback reaches the caller unchanged, and a reference only carries a record id that the callback returned for one of that reference's own elements.",
  ["fault_sequences", "inputs"],
  "all subsets of callback invocations that fail, all failure types, for all reference lines (including split references, implied ibids and books) and documents",
  "Two tests use always-succeeding linkers; none lets a callback fail part-way.",
  [ENG, REC], [("lookup errors of the callback are caught per element; the id is attached to the element", ENG + " associate_recids, add_recid_elements")],
  [], ["extract_references_from_string", "extract_references_from_file"])

p("C10", "Results are reproducible across processes and environments",
  "The same call on the same input gives the same result, including the order of every list, in every process: independent of hash randomisation, locale, time zone, working directory, temporary directory, open descriptors and the order in which modules of the library are imported or entry points first used.",
  ["configurations", "histories"],
  "all hash seeds and process environments (locale, encoding mode, TZ, cwd, TMPDIR, umask, unrelated environment variables)",
  "The suite runs in one environment and compares URL sets as sets.",
  [REC, PDF, ENG, AUT, TAG, KBS], [("ordered containers on every path to the result; explicit encodings", REC + " update_reference_with_urls; " + ENG + " get_plaintext_document_body; " + KBS)],
  [], ["extract_references_from_file", "extract_references_from_string", "extract_journal_reference"])

p("C11", "Results do not depend on when the process was started",
  "A long-running process gives, at any later time, exactly the results a process started at that time would give; in particular arXiv identifiers of the current year and month are recognised after any number of year ends, and clock jumps (forwards, backwards, leap days) neither fail an extraction nor permanently change later ones.",
  ["histories", "schedules"],
  "all process start times and later call times, clock steps in both directions, any calls in between",
  "Tests run at one instant in a fresh process; the year table is computed at import.",
  [RGX, TAG, ENG], [("year alternatives of new-style arXiv identifiers are computed for the year of the call", RGX + "; " + TAG + " tag_arxiv")],
  [("accepted arXiv years", "depends on the clock", RGX)], ["extract_references_from_string", "extract_references_from_file"])

p("C12", "A knowledge base is used completely or not at all",
  "If a knowledge base cannot be read to its end (missing or unreadable file, failing read, an iterable that fails half-way) or is malformed (undecodable bytes, an invalid pattern, or - for journals, journal patterns, publishers, collaborations and books - an entry without its search and replacement parts), the call that needs it raises rather than extracting with part of it; nothing of the failed load is used by that or any other call, a retry after the fault is gone gives exactly the fault-free result, and short or interrupted reads make no difference.",
  ["fault_sequences", "histories"],
  "every open/read fault point of every KB type's source (files, mappings, iterables), malformed entries at every position, any calls before and after",
  "Tests only load intact knowledge bases.",
  [KBS], [("a KB is built completely before it becomes visible in the cache; malformed lines raise", KBS)],
  [("loaded-KB cache", "only complete KBs", KBS)], PUB)

p("C13", "PDF link enrichment is best effort and never loses references",
  "Adding texkeys and link URLs found in a PDF never costs a reference: if that part of the document cannot be opened, read or interpreted, or the document changed or went away after its text was obtained, the call still returns every reference with exactly the fields it has without enrichment; and enrichment never changes any field other than the texkey and the URLs, never drops a URL found in the text, and only adds URLs that are text.",
  ["fault_sequences", "inputs"],
  "every open/read/seek fault point of the enrichment pass, and all structurally damaged link data in otherwise convertible PDFs",
  "Tests enrich intact PDFs only.",
  [PDF, API], [("exceptions of the PDF reader give an empty enrichment", PDF + " extract_texkeys_and_urls_from_pdf"), ("enrichment applied only when it aligns with the parsed references", API)],
  [], ["extract_references_from_file"])

NA = [
 ("C14", "Raw references are kept verbatim and in document order",
  "Each reference carries the raw text of the line it was parsed from, references appear in document order with their line markers, and splitting a line into several citations repeats the same raw text.", [TXT, ENG, REC]),
 ("C15", "Identifiers in a reference are recognised and normalised",
  "DOIs, arXiv numbers, report numbers, handles, ISBNs and URLs present in a reference line are reported in their normalised form, and nothing is reported as an identifier that is not in the line.", [TAG, RGX, ENG]),
 ("C16", "The reference section is located and complete",
  "For a document with a recognisable reference section, exactly the lines of that section are parsed, whatever page breaks, headers and footers interrupt it.", [FND, TXT, DTX]),
 ("C17", "Journal titles are normalised as the knowledge base says",
  "A journal title listed in the knowledge base is reported under its standard title with the volume, year and page that follow it, longest title first.", [TAG, KBS, ENG]),
 ("C18", "Texkeys and URLs are attached to the reference they belong to",
  "With enrichment aligned, the n-th reference carries the n-th citation key in reading order and exactly the URLs printed inside it, in one- and two-column layouts.", [PDF, API]),
 ("C19", "Every text is processed in bounded time without an exception",
  "Extraction from any string terminates, in time reasonable for its length, and returns a (possibly empty) list of references.", [ENG, TAG, TXT, FND]),
]
for id, t, s, f in NA:
    p(id, t, s, ["inputs"], "all inputs (reference lines, documents, KB contents)",
      "Tests sample some hundred lines and sixteen PDFs out of an unbounded input space.", f,
      [("parsing and normalisation rules", f[0])], [], PUB)

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            fh.write(json.dumps(x, ensure_ascii=False) + "\n")
