#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import pathlib

T = 'deterministic simulation with fault injection: seeded search over '
CHECKS = {
    'C01': ('crash points, power losses and I/O error sequences of in-place runs; old-or-new invariant after every simulated system call',
            'Sampled fault plans over random documents; every visible state of each run and sampled legal power-loss states are judged.'),
    'C02': ('failing system calls of every operation; success is compared with the undisturbed result',
            'Sampled single and multiple failures over all operation kinds.'),
    'C03': ('documents, marker layouts, buffer sizes and short transfers; result compared with a byte-exact splice model',
            'The TOC itself is taken from the program; the splice model is trusted.'),
    'C04': ('sequences of crashed, interrupted and failed runs followed by complete ones; convergence and idempotence',
            'Two recorded findings (KF1, KF3) are excluded by their exact input condition.'),
    'C05': ('batches with damaged members and failing calls; refinement against runs over each file alone',
            'Oracle is the program itself on single files.'),
    'C06': ('stream segmentations, buffer sizes, channels, line endings and end-of-input points; equality of TOCs',
            'Oracle is the program itself on a plain LF file with default buffers.'),
    'C07': ('histories of edits, in-place runs and checks with crashes between them; verdict recomputed from the bytes on disk',
            'The TOC is taken from the program; the model of the TOC block in the file is trusted. KF1 and KF3 are excluded by input condition.'),
    'C08': ('I/O errors in worlds with links, permissions and neighbour files; whole-tree comparison before and after',
            'Finding KF2 (temporary file of fpyutils left after an I/O error) is excluded by call site.'),
    'C09': ('thread schedules with switch points at source lines and system calls; equality with each thread alone',
            'Switches inside one source line or inside C code are not explored.'),
    'C10': ('points in time at which other programs save the document, and schedules of two writers; single-version oracle',
            'Other programs save atomically (rename).'),
    'C11': ('call histories with failures and interrupts in one process; equality with a fresh process, other clock, process id and hash seed',
            'Hash seeds are compared across real interpreters running the simulator.'),
    'C12': ('positions and kinds of damage, buffer sizes and segmentations; no entries, no change, status 1',
            'Text is UTF-8, as in the simulated locale.'),
    'C13': ('histories of edits and (crashing) runs with changing options; refinement against an executable model of TOC and splice',
            'The model covers a vocabulary of plain words and simple emphasis, tags and code; arbitrary inline markup is N02.'),
    'C14': ('long, odd and truncated inputs, segmentations and I/O errors; loop iterations and system calls are bounded while the run proceeds',
            'Loop iterations of Python code are counted; time inside C code is only watched by a 30 s limit.'),
    'C15': ('histories of failing and successful calls under a small descriptor limit; the simulated descriptor table is inspected after each call',
            'Reference counting of CPython is assumed.'),
}
PURE = 'A pure function of its text arguments: no schedule, time, I/O, fault or history can change it, so a simulator has nothing to decide. '
NA = {
    'N01': PURE + 'Deciding it needs the rules of each parser as oracle (differential testing against cmark or Redcarpet), which is another technique.',
    'N02': PURE + 'The reference is the renderers, which are not available offline.',
    'N03': PURE + 'Deciding it needs the fence rules of each parser as oracle over all lines; C06 and C13 exercise the fence state over streams and histories.',
    'N04': PURE + 'Deciding it needs exhaustive or grammar-based input testing of one function.',
    'N05': PURE + 'Deciding it needs the markdown renderers as oracle.',
}
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/gen_properties.py && python3 tools/gen_manifest.py && python3 check.py C13 --count 4',
    'checks': [{
        'property': k,
        'quick_cmd': 'python3 check.py ' + k,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + k,
        'evidence_file': 'evidence/%s.json' % k,
        'technique': T + t,
        'level': 'exploration',
        'level_note': n + ' A clean batch of seeds is evidence, not proof.',
    } for k, (t, n) in CHECKS.items()],
    'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
    'notes': 'No hooks in /repo: every seam is at the boundary of the interpreter (module os, io, open, clock, random source, threads). Replay a violation with: python3 check.py <id> --replay <file>.',
}
out = pathlib.Path(__file__).resolve().parent.parent / 'MANIFEST.json'
out.write_text(json.dumps(m, indent=1) + '\n')
