#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

API, GEN, CLI, MAIN = "md_toc/api.py", "md_toc/generic.py", "md_toc/cli.py", "md_toc/__main__.py"

p("C01", "An in-place update is all-or-nothing under crashes and I/O errors",
  "At every instant of an in-place run, and after the process is killed or interrupted, the machine loses power, or system calls fail at any points, each document holds either exactly the bytes it had before the run or exactly the bytes of its completed update. No crash point and no sequence of I/O errors leaves a document missing, empty, truncated, stripped of its markers or TOC, or only partly updated.",
  ["crash_points", "fault_sequences", "inputs", "configurations"],
  "every document, every place where a run can be killed, interrupted, lose power or have a system call fail (with one or several such faults), temporary directory on the same or another filesystem, any buffer sizes",
  "The tests run the write once on a fault-free fake filesystem and look only at the final content; none injects a fault or looks at intermediate or post-crash states.",
  [API, GEN, CLI], [("edit on a private copy, then one atomic replace", "generic._edit_atomically / _replace_file"), ("remove old TOC, insert new TOC", "api.write_string_on_file_between_markers")],
  ["bytes of the document after every file-system operation, after kill, after power loss"],
  [("document", "the markdown file being edited", "file system")])
p("C02", "A run that did not complete never reports success",
  "If any system call needed to read a document, build its TOC, write or replace it, or emit the TOC on standard output fails, and the requested result is therefore not completely delivered, the API call raises an exception and the command exits with a non-zero status other than 128. Exit status 0 (or 128 with --diff) means that every named document was completely updated, or that every TOC was completely printed.",
  ["fault_sequences", "inputs", "configurations"],
  "every operation of the API and CLI, every failing system call (open, read, write, sync, close, rename, metadata, stdin, stdout) and short reads and writes, on every document",
  "No test makes an I/O call fail; the exit status of the command is not tested at all.",
  [API, CLI, MAIN, GEN], [("exceptions propagate to main, which exits 1", "__main__.main"), ("per-file loop without catching", "api.write_strings_on_files_between_markers")],
  ["exit status, exception, final bytes of documents, bytes received by stdout"])
p("C03", "An in-place run changes nothing but the TOC block",
  "After a successful in-place run the document is the old one with the TOC, enclosed by two marker lines, put in place of the first marker pair that encloses a list or blank TOC block, or of the only marker line, or before the first marker line if no pair encloses a TOC. Every other line is kept, in order and unchanged, apart from line endings, which all become the selected newline; a document without marker lines keeps its exact bytes.",
  ["inputs", "configurations", "fault_sequences", "histories"],
  "all documents (any number and placement of markers, stale, empty, damaged or hand-edited TOC blocks, any line endings, missing final newline, non-ASCII text), all markers and newline strings, any short reads and writes and buffer sizes during the run, over repeated runs",
  "The tests try about thirty documents with one line of text, LF endings and the default marker, never a second run, never short I/O.",
  [API, GEN], [("marker search and TOC detection", "generic._get_existing_toc"), ("line-interval removal and insertion", "api.write_string_on_file_between_markers")],
  ["bytes of the document before and after the run"])
p("C04", "Repeating or resuming a run converges to one result",
  "Running the same in-place command again on its own result leaves the bytes of the document as they are and reports no difference (provided that lines to be skipped, if any, lie before the TOC block, and that the replaced block holds no headings or code fences of its own). If runs are cut short by any sequence of crashes, interrupts or I/O errors, the first later run that completes gives exactly the bytes an undisturbed run would have given.",
  ["crash_points", "fault_sequences", "histories", "inputs", "configurations"],
  "every document with at least one marker, every option set, every sequence of interrupted runs followed by completed runs",
  "No test runs the tool twice on the same file, and none after an interrupted run.",
  [API, GEN, CLI], [("detection of a TOC block written by the tool itself", "generic._detect_toc_list, _string_empty"), ("atomic replacement keeps markers across a crash", "generic._edit_atomically"), ("TOC comparison", "api.write_string_on_file_between_markers")],
  ["document bytes and exit status of successive runs"])
p("C05", "Files of one batch are handled independently and in order",
  "For every file of a multi-file run the result is exactly what a run over that file alone would give, each TOC goes to its own file, and on standard output the TOCs appear in argument order. If the TOC of any file cannot be built, no file is modified; if writing one file fails, the files before it are completely updated and that file and the ones after it keep their bytes.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "all lists of files (with repeated headings across files, incoherent, unreadable, missing or undecodable members, files in different directories) and every failing call at every file",
  "The multi-file functions have empty tests.",
  [API, CLI], [("per-file state created inside the per-file call", "api.build_toc"), ("all TOCs are built before the first write", "cli.CliToApi.write_toc"), ("pairing of files and strings", "api.write_strings_on_files_between_markers")],
  ["bytes of all the files, stdout, exit status"])
p("C06", "The TOC does not depend on how the input is delivered",
  "The same text gives the same TOC whether it is read from a file or from standard input, however the bytes are split into reads (also inside a multi-byte character or a CRLF pair), whatever the buffer sizes, and whether its lines end with LF, CRLF or CR. End of input at any point, also in the middle of a line or inside an open code fence, is treated in the same way on every channel.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "all texts cut at any point, all segmentations of the byte stream, both channels, all buffer sizes, all newline styles, all parsers and options",
  "No test reads standard input or builds a TOC from a stream; file tests deliver everything in one read.",
  [API], [("text-mode line reading with look-ahead by tell/seek on files only", "api.build_toc"), ("stdin special case", "api.build_toc, filename '-'")],
  ["TOC returned or printed"])
p("C07", "The difference verdict is true",
  "With --diff the exit status is 128 exactly when, for at least one named file, the TOC block in the file differs (apart from surrounding blank space and newline style) from the newly built TOC, and 0 when none differs; without --diff it is never 128. Right after a successful in-place run on documents that have a marker (below any skipped lines, and no headings or code fences in the replaced block) the verdict for the same options is 'no difference', and it stays so until the headings change.",
  ["histories", "inputs", "configurations"],
  "all histories of edits, in-place runs and checks over one or more files, all newline strings, markers and option sets",
  "The comparison function and the --diff option have no test.",
  [API, CLI, MAIN], [("comparison with the existing TOC", "api.tocs_equal"), ("exit status 128", "cli.CliToApi.write_toc, __main__.main")],
  ["exit status after each step of a history"])
p("C08", "Nothing but the named documents is affected",
  "Printing a TOC or checking for differences changes no file. An in-place run changes only the content of the named documents: their permissions stay the same, a document that is a symbolic link stays one and its target is updated, all other files keep their content, and when the run ends, successfully or with an error, no temporary or backup file is left behind (unless the system refuses to remove it).",
  ["fault_sequences", "inputs", "configurations"],
  "all directory layouts (neighbour files with similar names, symbolic links, permissions, temporary directory on the same or another filesystem), all operations, all failing system calls",
  "Tests look only at the content of the single edited file on a fault-free fake filesystem.",
  [API, GEN, CLI], [("private copy in a self-removing directory", "generic._edit_atomically"), ("mode copied, link resolved, temporary file removed on error", "generic._replace_file"), ("read-only open when building", "api.build_toc")],
  ["full tree (names, types, modes, contents) before and after each operation"])
p("C09", "Concurrent callers do not disturb each other",
  "When several threads of one program build, compare and write TOCs of different documents at the same time, every call returns (or raises) exactly what it would if run alone, and every document ends with exactly the bytes it would have had. This holds for every interleaving.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of two to four calls at the granularity of source lines and system calls, all documents and option sets",
  "All tests are single-threaded.",
  [API, GEN, "md_toc/cmark/inlines_c.py", "md_toc/constants.py"], [("all parsing state is local to the call", "api.build_toc, cmark.inlines_c"), ("temporary names are unique", "tempfile")],
  ["return values, exceptions, final bytes of each document"])
p("C10", "Concurrent saves of a document are never mixed",
  "If other programs atomically save new versions of a document while the tool builds its TOC or rewrites it in place, each call (build, compare, write) acts on a single version: a TOC or a comparison is that of one version that existed during the call, and after an in-place write the document is the last version saved by others or one of the saved versions with only its TOC block replaced. Concurrent in-place runs on one document likewise leave the result of one of them applied to one version.",
  ["schedules", "inputs", "histories"],
  "all interleavings of one to three saves, and of a second in-place run, with the system calls of the operation; all documents",
  "No test has a second actor touching the file.",
  [API, GEN], [("single open file while building", "api.build_toc"), ("all steps of an edit on one private copy", "generic._edit_atomically")],
  ["bytes of the document after each operation, TOC returned"])
p("C11", "A call's result does not depend on what happened before",
  "What a call returns, prints or writes depends only on its arguments and on the content of the files (or standard input) it names. It is not affected by earlier calls in the same process, whether they succeeded, raised, failed on I/O or were interrupted at any point, nor by the hash seed, clock or process id.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "all sequences of calls with different documents, parsers and options in one process, each possibly failing or interrupted at any source line or system call",
  "Every test makes isolated calls; none checks a call after a failed one.",
  [API, GEN, "md_toc/constants.py", "md_toc/cmark/inlines_c.py"], [("counters and logs created per call", "api.build_toc"), ("constant tables never modified", "constants.parser")],
  ["results of each call against the same call in a fresh process"])
p("C12", "Damaged input never yields a partial TOC or a changed file",
  "If the bytes of a document are not valid text at any position (binary data, flipped or missing bytes, a character cut at the end), building its TOC gives no entries at all: only the 'probably a binary file' notice, or an error. An in-place run on such a document exits with status 1 and leaves its bytes as they are.",
  ["inputs", "fault_sequences", "configurations"],
  "all documents, all positions of the damage (before, inside or after any heading, inside the skipped lines, across read boundaries, at the very end), all buffer sizes",
  "No test feeds undecodable bytes.",
  [API, GEN], [("decoding errors caught at every read of the main loop", "api.build_toc"), ("strict decoding while editing", "generic._get_existing_toc")],
  ["TOC returned, bytes of the document, exit status"])
p("C13", "The TOC block always describes the current document",
  "After any history of edits and in-place runs, a successful run leaves a TOC that lists exactly the headings the document has now, in order: those outside fenced code blocks (Redcarpet, as supported, has none), after the skipped lines and within the selected level, one entry each, nested, numbered and marked as selected, linking to the anchor that the selected parser gives to that heading (repeated headings numbered in document order, also those too deep to be listed). Nothing comes from the list in the old TOC block or from earlier runs; if the heading levels are incoherent and checked, the run fails and the document stays as it was.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all histories of heading and text edits, fence openings and closings, TOC block damage and runs with changing options (levels, ordered, constant, plain, flat, unchecked, skipped lines, markers, parser), with interrupted runs in between",
  "build_toc and the CLI have empty tests; only the single-line helpers are tested.",
  [API, CLI], [("line loop with fence state, duplicate counter, list index and indentation log", "api.build_toc"), ("option mapping", "cli.CliToApi.write_toc")],
  ["TOC block in the document after each successful run, against an executable model"],
  [("fence state", "inside or outside a fenced code block", "api.build_toc"), ("header_duplicate_counter", "how often an anchor was produced", "api.build_anchor_link"), ("indentation_log", "indentation per level", "api.compute_toc_line_indentation_spaces")])
p("C14", "Every run finishes within a bounded number of steps",
  "Every operation ends, by returning or raising, after a number of steps bounded by a small polynomial in the size of its input, for every text, every point at which the input ends, every way it is delivered, and whatever I/O errors occur. The number of file-system calls is bounded by a constant per line and per block of the files involved.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all texts (also truncated at any byte, with unbalanced markup in headings, more skipped lines than lines), all segmentations, all failing calls",
  "Tests only cover inputs on which the loops end.",
  [API, GEN, "md_toc/cmark/inlines_c.py"], [("loops that advance on every path", "api.build_toc, api.get_atx_heading, generic._read_line_interval, inlines_c")],
  ["loop iterations and file-system calls per operation"])
p("C15", "No file descriptor is left open",
  "When an operation has returned, or its exception has been handled, every file it opened is closed, so that any number of operations, successful or failed, can be done by one process with a small limit on open files. At no time does an operation keep more than a constant number of files open, regardless of how many files it is given.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of operations over many files, each possibly failing at any system call, undecodable, incoherent or missing",
  "No test counts open files or sets a limit.",
  [API, GEN], [("explicit close and context managers", "api.build_toc, generic"), ("one file at a time", "api.build_multiple_tocs")],
  ["open descriptors after and during each operation"])

NA = "a pure function of one line of text and the parser name; the unit tests sample it with the examples of the CommonMark and GFM specifications only"
p("N01", "ATX headings are recognised as each markdown parser does",
  "For every line of text and every supported parser, the line is taken as a heading of a given level with a given text exactly when that parser's ATX rules say so.",
  ["inputs"], "all lines and parsers", "Finite sample of spec examples.", [API], [("heading scanner", "api.get_atx_heading")], ["get_atx_heading"])
p("N02", "Anchors equal the ones the markdown renderer produces",
  "For every heading text and parser the anchor link is the identifier the corresponding renderer (GitHub, GitLab, Redcarpet, ...) gives to that heading, after removing emphasis, HTML tags and punctuation as it does.",
  ["inputs"], "all heading texts and parsers", "Finite sample of spec examples; the renderers are not available.", [API, "md_toc/cmark/inlines_c.py"], [("slug rules", "api.build_anchor_link, remove_emphasis, remove_html_tags")], ["build_anchor_link"])
p("N03", "Code fences open and close as each markdown parser does",
  "For every line, whether it opens a fenced code block, and whether it closes a given one, is decided as by the rules of the selected parser.",
  ["inputs"], "all lines and fences", "Finite sample of spec examples.", [API], [("fence scanners", "api.is_opening_code_fence, is_closing_code_fence")], ["is_opening_code_fence, is_closing_code_fence"])
p("N04", "Link labels are always valid link text",
  "For every heading text the emitted link label is balanced and escaped so that it renders as one link, is not blank and is at most 999 characters; otherwise a documented exception is raised.",
  ["inputs"], "all heading texts", "Finite sample.", [API], [("escaping of brackets and backslashes", "api.get_atx_heading")], ["get_atx_heading"])
p("N05", "The emitted list renders with the nesting of the headings",
  "For every coherent sequence of heading levels the emitted list, rendered by the selected parser, nests every entry under its parent heading.",
  ["inputs", "configurations"], "all level sequences, list markers and parsers", "Finite sample of sequences.", [API], [("indentation computation", "api.compute_toc_line_indentation_spaces")], ["rendered list"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
