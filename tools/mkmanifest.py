#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules"""
import glob, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HIST = 'explicit-state exploration of the real program: breadth-first search over operation histories (worlds merged by archive contents) and exhaustive enumeration of sizes and configurations within bounds, every transition an execution judged against a reference model and an independent WARC parser'
OLD = {
    'C01': 'Operation histories to depth 3 (thorough 5) over an alphabet of stores, metadata, housekeeping, reindex and mksilo; every object size 1..7000 in 4k silos and around every capacity in silos up to 2.1M; every silo.max_size; input cut at every one and two of the listed places. Reference: the bytes generated. Larger sizes and other contents are outside the bounds.',
    'C02': 'Every ID length 64..256, prefixes, forms of -r, sizes around hash blocks and buffers, every two cuts of the input, silo sizes, dates and MIME types; histories to depth 4 (6). Reference: SHA-256 from hashlib.',
    'C03': 'Histories to depth 5 (7) including duplicates, forced IDs, contents equal to a segment or warcinfo; IDs that differ only in the last digits for every ID length. Directory compared byte for byte.',
    'C04': 'Histories to depth 5 (7); every size 1..6200 in 4k silos and steps to 2 MB; silos filled to the brim; every silo.max_size from 1350; headers of every length. An independent parser reads every silo.',
    'C05': 'Histories to depth 3 (5) over every operation of the program including failing ones and read-only silos; each transition compares the silos before and after byte for byte and by mode.',
    'C06': 'Every size around one to three segments in 4k silos, steps in silos up to 1.1M, objects equal to segments and warcinfo bodies; histories to depth 3 (5).',
}
NOTES = {
    'C07': 'Kills before every system call and inside every write (page boundaries in silos, every interesting place in hold files) of a store, from several archives, two kills deep; recovery judged by get, re-store, and every other operation. System calls are atomic and ordered; power loss (lost caches) is not modelled.',
    'C08': 'One fault (thorough: more archives and inputs) at every system call of store, get, get -z, get -o, filter, cgi, byid and others, in every applicable way, also persistent ones. Faults inside a page of a 32-byte index record are not modelled.',
    'C09': 'Pairs and triples of store, get, get -z, filter, audit, mksilo from several archives; preemption bound per scenario 0..2 (thorough one more). Memory accesses inside a process are not scheduling points (processes share only files).',
    'C11': 'One fault or kill (and pairs) at every system call of housekeeping from archives with and without sorted part and left-over snapshot, one and several batches.',
}
out = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for f in sorted(glob.glob('checks/c[0-9][0-9].py')):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module('checks.' + pid.lower())
    out['checks'].append({
        'property': pid, 'quick_cmd': f'python3 check.py {pid} quick', 'thorough_cmd': f'python3 check.py {pid} thorough',
        'technique': getattr(m, 'TECHNIQUE', HIST), 'level': m.LEVEL, 'level_note': getattr(m, 'NOTE', None) or OLD.get(pid) or NOTES[pid]})
json.dump(out, open('MANIFEST.json', 'w'), indent=1)
