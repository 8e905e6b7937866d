#!/usr/bin/env python3
"""Writes properties.jsonl (kept here so that it is easy to review as text)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'Stored objects come back bit for bit',
  'Whenever `store` has acknowledged an object (exit 0 with its ID on stdout), `get ID` delivers exactly its bytes, `get -z ID` delivers exactly one gzip stream that decompresses to exactly those bytes, and `get -o FILE ID` leaves exactly those bytes in FILE, each with exit status 0. '
  'This holds whatever the content, its size, the pieces in which it arrived on standard input, the silo.max_size, and whatever else is stored, housekept or reindexed before or after.',
  ['inputs', 'configurations', 'histories'],
  'all contents and sizes; all ways the input may be cut into reads; all silo.max_size values that can hold a record; all later histories of store, housekeeping and reindex',
  'The tests store a few dozen source files with one silo size and one chunking; the steering of gzip output into nearly full silos depends on the exact size, compressibility and read boundaries.',
  ['segjob.c', 'wsilo.c', 'gzip.c', 'rsilo.c', 'getjob.c', 'main_store.c', 'main_get.c'],
  [('SegJob_Feed', 'segjob.c'), ('Wsilo_GetSpace', 'wsilo.c'), ('Rsilo_ReadChunk', 'rsilo.c'), ('gzip_stitch_feed', 'gzip.c'), ('GetJob_Iter', 'getjob.c')],
  observe=['exit status and stdout of store', 'stdout/-o file of get'])

p('C02', 'Object IDs depend on the content alone',
  'The ID `store` prints for a resource is the configured prefix followed by the first WARC-Record-ID-length hex digits of the SHA-256 of its bytes, and for a metadata object the same digits of SHA-256(referenced-ID-URI "\\n" hex-SHA-256(bytes) "\\n") as it appears in WARC-Refers-To, unless -i forces another ID. '
  'Nothing else influences it: not chunking, silo size, segmentation, compression, MIME type, date or what the archive already holds; and the same ID is in the stored record.',
  ['inputs', 'configurations'],
  'all contents, sizes, chunkings, silo sizes, ID lengths 64..256 in steps of 4, prefixes, MIME types, dates',
  'The tests compare IDs only with those of the same binary in one configuration; a segment boundary or an ID length they do not use can change the digest that becomes the ID.',
  ['ident.c', 'segjob.c', 'header.c', 'main_store.c'],
  [('Ident_Create', 'ident.c'), ('SegJob_Commit', 'segjob.c'), ('Digest2Ident', 'ident.c'), ('Header_Set_Id', 'header.c')],
  observe=['stdout of store', 'WARC-Record-ID in the silo'])

p('C03', 'Storing the same object again changes nothing',
  'If `store` is given an object whose ID is already in the archive, it exits 0 and prints that same ID, and no silo, index entry or hold file is added, removed or changed. '
  'Conversely an object that is not in the archive is always stored: exactly one new complete copy of it appears, and no other object appears or disappears.',
  ['histories', 'configurations'],
  'all histories of store (resource and metadata, segmented and not), housekeeping and configuration changes between the two stores',
  'The tests store duplicates in one or two fixed situations; whether a duplicate is recognised depends on where the earlier copy and its index entry have ended up.',
  ['segjob.c', 'getjob.c', 'index.c', 'wsilo.c', 'main_store.c'],
  [('SegJob_Commit', 'segjob.c'), ('GetJob_New', 'getjob.c'), ('Wsilo_Abandon', 'wsilo.c')],
  observe=['stdout and exit status of store', 'files under silo.directory'])

p('C04', 'Silos are always well-formed WARC 1.1 files',
  'Every installed silo is a sequence of complete records, each made of gzip members (header, body, CRLFCRLF) whose "Aa" extra field holds the member\'s own length; it decompresses to valid WARC 1.1 in which Content-Length, WARC-Block-Digest, WARC-Payload-Digest and WARC-Segment-Total-Length are true and WARC-Date is the UTC time of writing, and the first record and no other is a warcinfo naming that file. '
  'No silo is larger than silo.max_size, and no hold file or other stray file remains after an operation that completed.',
  ['inputs', 'configurations', 'histories'],
  'all histories of store, mksilo and housekeeping; all contents, sizes and silo sizes',
  'The tests read silos back with the program that wrote them; a wrong length or digest that the program itself does not look at is invisible to them, and so is a size overrun at an untested size.',
  ['wsilo.c', 'segjob.c', 'gzip.c', 'header.c', 'warcinfo.c'],
  [('Wsilo_Finish', 'wsilo.c'), ('Wsilo_Commit', 'wsilo.c'), ('Gzip_WriteAa', 'gzip.c'), ('Warcinfo_New', 'warcinfo.c'), ('segjob_finishseg', 'segjob.c')],
  observe=['files under silo.directory'])

p('C05', 'Silos only ever grow, and read-only silos never change',
  'Once a silo file is installed, no operation ever removes, renames or shortens it or alters a byte already in it; the only change is that whole records are added at its end, by store. '
  'A silo without owner write permission is never changed at all, and no operation changes file permissions of installed silos.',
  ['histories', 'configurations'],
  'all histories over every subcommand, with any set of silos made read-only at any time, run as root (who could write anyway)',
  'A test would have to compare every silo before and after every operation, in states where appending is attempted on read-only, full and held silos.',
  ['wsilo.c', 'silo.c', 'main_reindex.c', 'main_rebuild.c', 'main_audit.c', 'main_mksilo.c'],
  [('silo_attempt_append', 'wsilo.c'), ('Wsilo_New', 'wsilo.c'), ('Wsilo_Install', 'wsilo.c')],
  observe=['silo files before and after every operation'])

p('C06', 'Large objects are split and reassembled correctly',
  'An object that does not fit in one silo is stored as segments numbered 1..n in separate silos, the first being of its own type with the payload digest, the rest continuations that name the first, the last carrying the total length, and together they are exactly the object; one that fits is stored as one unsegmented record. '
  '`get` and `get -z` deliver the concatenation under the first segment\'s ID with headers describing the whole object, and the ID of a continuation segment or a warcinfo record is never delivered as an object, while an independently stored object that has the same ID is.',
  ['inputs', 'configurations', 'histories'],
  'all contents and sizes around the segmentation thresholds, 1..n segments, mixed with other segmented objects that share segments',
  'The tests only have files of a few silo sizes; boundary sizes, compressible/incompressible transitions inside one object and objects that share segments do not occur.',
  ['segjob.c', 'wsilo.c', 'getjob.c', 'gzip.c', 'main_get.c'],
  [('segjob_newseg', 'segjob.c'), ('SegJob_Commit', 'segjob.c'), ('getjob_iter', 'getjob.c'), ('gzip_stitch_feed', 'gzip.c'), ('GetJob_Headers', 'getjob.c')],
  observe=['records in silos', 'stdout/stderr of get'])

p('C07', 'A store killed at any point leaves a usable archive',
  'If `store` is killed at any moment, every object acknowledged earlier is still delivered correctly by `get`; the interrupted object is either delivered completely or reported as not found, never partly or wrongly. '
  'After the kill, storing the interrupted object or any other object succeeds (left-over hold files are skipped, not reused) and the object is then delivered correctly, and every operation on the archive still works (audit, reindex and rebuild may stop with an error at a record which the kill cut short in a silo).',
  ['crash_points', 'histories'],
  'every system-call boundary and torn write of a store of any kind of object (new silo, appended, segmented, duplicate, metadata), in every preceding state, followed by recovery operations',
  'Tests never kill the program; there are dozens of instants between the first byte and the last unlink, each with its own on-disk state.',
  ['wsilo.c', 'segjob.c', 'index.c', 'getjob.c'],
  [('Wsilo_Commit', 'wsilo.c'), ('Wsilo_Install', 'wsilo.c'), ('SegJob_Commit', 'segjob.c'), ('IDX_Insert', 'index.c')],
  observe=['results of get/store/filter after the kill'])

p('C08', 'No success is reported when the system failed',
  'If any system call of `store`, `get` or `filter` fails (no space, I/O error, read error on the input, unwritable or full output) or transfers less than asked, then exit status 0 with an ID from `store` still means that exactly the given bytes are retrievable under that ID, and exit status 0 from `get` or `filter` still means that the complete correct output was delivered. '
  'Objects acknowledged earlier stay retrievable in all cases, and once the fault is gone the same store works.',
  ['fault_sequences'],
  'every system call of every operation kind failing once or from then on, with ENOSPC, EIO, EINTR-like and short transfers',
  'Tests never see a failing system call.',
  ['main_store.c', 'main_get.c', 'main_filter.c', 'wsilo.c', 'index.c', 'rsilo.c'],
  [('main_store read loop', 'main_store.c'), ('get_iter', 'main_get.c'), ('Wsilo_Store', 'wsilo.c'), ('IDX_Insert', 'index.c')],
  observe=['exit status, stdout, and what is retrievable afterwards'])

p('C09', 'Concurrent stores and reads do not interfere',
  'Any number of `store` processes (same or different objects, any sizes) and `get`/`filter` processes may run on one archive at the same time: every store that exits 0 has its object retrievable, all stores complete, silos stay well-formed with no bytes lost or overwritten, and no process waits for another for ever. '
  'A `get` that runs concurrently delivers a previously acknowledged object correctly, and for an object being stored either delivers it completely or reports that it is not found.',
  ['schedules'],
  'all interleavings of 2-3 processes at system-call granularity, up to a preemption bound',
  'Tests run one process at a time.',
  ['wsilo.c', 'segjob.c', 'index.c', 'aardwarc.c', 'getjob.c'],
  [('Wsilo_New', 'wsilo.c'), ('silo_attempt_append', 'wsilo.c'), ('IDX_Insert', 'index.c'), ('AardWARC_WriteCache', 'aardwarc.c')],
  observe=['final archive, outputs and exit statuses of each process'])

p('C10', 'The index finds exactly the entries that match',
  'For any set of index entries, however distributed over the ID space and however divided over sorted part, housekeeping snapshot and appendix by any sequence of housekeeping runs and index.sort_size, looking up an ID or ID prefix (get, byid, dumpindex, filter, duplicate detection) finds every entry with that prefix and no other. `dumpindex -t` shows exactly the entries of that type. '
  'Housekeeping neither loses nor alters nor invents entries and leaves the sorted part in order.',
  ['inputs', 'histories', 'configurations'],
  'all small key sets over boundary keys, many merge sequences, sizes across the bucket-table growth points, every prefix length',
  'The tests have a hundred random keys, always spread evenly; the estimate of where a key lies is wrong only for uneven or repeatedly merged key sets.',
  ['index.c'],
  [('bucket_seek', 'index.c'), ('bucket_update', 'index.c'), ('idx_merge', 'index.c'), ('IDX_Iter', 'index.c')],
  observe=['output of dumpindex/byid/get'])

p('C11', 'Housekeeping can be killed or fail at any point without loss',
  'If `housekeeping` is killed or any of its system calls fails at any moment, every index entry can still be found, and stores and reads keep working. '
  'When the left-over index.hold has been removed, running housekeeping again completes, and the result has exactly the same entries as an undisturbed run.',
  ['crash_points', 'fault_sequences'],
  'every system-call boundary, torn write and failing call of housekeeping, from states with and without sorted part and left-over snapshot, with one or several sort batches, followed by store, get and housekeeping',
  'Tests never interrupt housekeeping.',
  ['index.c'],
  [('idx_attempt_merge', 'index.c'), ('idx_merge', 'index.c'), ('IDX_Resort', 'index.c')],
  observe=['entries found afterwards'])

p('C12', 'Housekeeping runs safely beside stores and reads',
  '`housekeeping` may run at the same time as stores, reads and another housekeeping: no acknowledged object ever becomes impossible to find, neither during the run nor after it, and no process aborts or waits for ever. '
  'A read that runs during housekeeping finds every object acknowledged before it started.',
  ['schedules'],
  'all interleavings, up to a preemption bound, of housekeeping with store, get, filter, dumpindex or a second housekeeping',
  'Tests run one process at a time; the window between writing an index entry and merging the file it went to is a few system calls wide.',
  ['index.c'],
  [('IDX_Insert', 'index.c'), ('IDX_Iter', 'index.c'), ('idx_attempt_merge', 'index.c')],
  observe=['final index entries, outputs of concurrent readers'])

p('C13', 'The index can be rebuilt from the silos',
  'After the index files are lost, `reindex` produces an index with which every object in the silos (segmented or not, resource or metadata, also when stored twice) is delivered, and dumpindex lists exactly the same entries as the original index. '
  'Running `reindex` on an archive whose index is intact or partly lost adds what is missing and changes nothing else, also when only some silo files are named.',
  ['histories', 'configurations'],
  'all archives reachable by bounded histories, in every order of segments over silos, with any of the index files lost, with or without silo arguments',
  'Tests reindex one archive in which segments are in ascending silos and no object is duplicated.',
  ['main_reindex.c', 'index.c', 'silo.c'],
  [('got_seg', 'main_reindex.c'), ('try_seg', 'main_reindex.c'), ('silo_iter', 'main_reindex.c')],
  observe=['dumpindex and get after reindex'])

p('C14', 'Audit reports every defect and no false ones',
  '`audit` examines every record of every silo of the archive (or of the silo files named), reports nothing wrong for an archive that store produced, whatever silo numbers are missing or whether its records are WARC 1.1 or the WARC 1.0 of earlier versions, and terminates. '
  'If any record has a wrong digest, length, ID, or a segmented object lacks a segment, has a wrong total length or payload digest, or a silo is damaged so that its records cannot be decompressed or read differently, audit prints an ERROR (or a bad entry, or segments left pending) or does not end with status 0.',
  ['inputs', 'histories'],
  'all archives reachable by bounded histories, with gaps in silo numbers; every single-header alteration and every single-bit damage of the stored bytes; every lost silo',
  'Tests audit intact archives only, in one arrangement.',
  ['main_audit.c', 'rsilo.c', 'silo.c'],
  [('audit_one', 'main_audit.c'), ('audit_one_pending', 'main_audit.c'), ('audit_silo', 'main_audit.c')],
  observe=['stdout and exit status of audit'])

p('C15', 'Damaged archives never yield wrong data as success',
  'If a silo has been damaged after it was written (any bit flipped, any number of bytes removed at the end, silos, records or record bodies exchanged, replaced or missing), `get ID` either delivers exactly the stored bytes or does not exit with status 0, and terminates. `get -z` does not look inside what it delivers, but, unless a record body was replaced, a wrong result with status 0 is at least not a single well-formed gzip stream of other data. '
  'Objects whose own records are not touched by the damage are still delivered.',
  ['inputs', 'fault_sequences'],
  'every single-bit flip and every truncation of the silos of small archives with plain, appended and segmented objects; missing and exchanged silos; damaged index entries',
  'Tests never damage an archive.',
  ['rsilo.c', 'main_get.c', 'getjob.c', 'gzip.c', 'header.c'],
  [('Rsilo_ReadHeader', 'rsilo.c'), ('Rsilo_ReadChunk', 'rsilo.c'), ('digest check', 'main_get.c'), ('Gzip_ReadAa', 'gzip.c')],
  observe=['stdout and exit status of get'])

p('C16', 'CGI responses are complete and describe what is sent',
  'For every stored object the CGI operation answers a GET for its ID (with or without leading slash or prefix) with status 200, its Content-Type, and a Content-Length equal to the number of body bytes that follow, which are exactly the object, or, when the client accepts gzip and Content-Encoding: gzip is announced, a single gzip stream that decompresses to it. '
  'For anything else that is asked it answers with an error status and never with an archive object.',
  ['inputs', 'configurations', 'histories'],
  'all stored objects (plain, appended, segmented, metadata) of enumerated sizes, all request forms over a small alphabet of paths, methods and accept headers',
  'Tests make a handful of requests for one object and do not compare Content-Length with what follows.',
  ['main_cgi.c', 'getjob.c', 'rsilo.c'],
  [('main_cgi', 'main_cgi.c'), ('GetJob_TotalLength', 'getjob.c')],
  observe=['stdout of cgi'])

p('C17', 'Filter classifies every ID correctly',
  '`filter` outputs, in input order and unchanged, exactly the lines whose ID is not in the archive, with -r exactly those whose ID is, and with -v every line with 1 or 0 in front. An ID is in the archive if `get` can retrieve an object with it (IDs of silo headers and continuation segments do not count); with -s exactly that decides, without it the first 24 hex digits do. '
  'This holds for any order, repetition, letter case, prefix form and number of lines, from stdin or files, to stdout or -o FILE, and whatever the arrangement of the index.',
  ['inputs', 'histories', 'configurations'],
  'all short sequences of lines over an alphabet of present, absent, neighbouring, prefix-sharing, repeated and re-cased IDs, in every index arrangement, for every option combination and several ID lengths',
  'Tests use sorted lists of present IDs in one index arrangement.',
  ['main_filter.c', 'index.c'],
  [('filter_iter', 'main_filter.c'), ('read_file', 'main_filter.c'), ('cand_cmp', 'main_filter.c')],
  observe=['stdout or -o file of filter'])

p('C18', 'The stevedore protocol does what the requests say',
  'For any sequence of requests, `stevedore` answers each filter batch with exactly the IDs that are not in the archive, stores each file and metadata it is given byte for byte, and acknowledges a job only when everything it was sent is retrievable. '
  'Malformed, truncated or oversized requests end it with a non-zero exit status (an error message or a failed assertion), requests of an unknown kind are answered with a message and skipped; none of them ever makes it hang, corrupt memory, or acknowledge or store something that was not sent whole.',
  ['inputs', 'histories'],
  'all request sequences to a bounded depth over an alphabet of well-formed and malformed messages, every truncation point, every cut of the byte stream into reads',
  'Tests use the one conversation their own client has.',
  ['main_stevedore.c', 'proto.c', 'vlu.c', 'main_store.c', 'main_filter.c'],
  [('main_stevedore', 'main_stevedore.c'), ('Proto_In', 'proto.c'), ('VLU_Fd', 'vlu.c')],
  observe=['answers, exit status, and archive afterwards'])

p('C19', 'Stow archives a directory tree completely',
  'When `stow` exits 0 for a directory, every regular file that was in it (outside the excluded names) is retrievable with exactly its bytes, and the stored metadata describes the tree with those files\' IDs. '
  'If anything goes wrong on the way (a file cannot be read, a helper or the stevedore fails or dies), stow does not exit 0, and running it again after the cause is gone completes the job.',
  ['inputs', 'schedules', 'fault_sequences'],
  'small directory trees over an alphabet of file names, sizes and duplicates; the interleavings of stow, mtree and stevedore; failures of each helper at each point',
  'Tests stow one tree, undisturbed.',
  ['main_stow.c', 'main_stevedore.c', 'proto.c'],
  [('main_stow', 'main_stow.c'), ('stow_job', 'main_stow.c')],
  observe=['exit status, archive afterwards'])

p('C20', 'Rebuilding a silo keeps every object',
  'The output of `rebuild` for a silo is a well-formed WARC file that has the same records in the same order as the silo, with the same IDs, types and bodies; used in place of the silo (after reindex), every object is still delivered bit for bit. '
  'A silo that is missing or cannot be read to its end (truncated, damaged) is reported with a non-zero exit status, and beside a missing or truncated one the others are rebuilt all the same; the silos themselves and the index are left as they are.',
  ['inputs', 'histories', 'damage'],
  'all silos reachable by bounded histories, with bodies of enumerated sizes and compressibility around the internal buffer sizes',
  'There is no test of rebuild.',
  ['main_rebuild.c', 'gzip.c', 'header.c'],
  [('rebuild_silo', 'main_rebuild.c')],
  observe=['output of rebuild'])

p('C21', 'The configuration means what it says',
  'Every value of a configuration setting (ID length, prefix, silo.directory, silo.max_size with unit suffixes, silo.basename, index.sort_size, MIME types, warcinfo body) is either refused with a message and a non-zero exit status before anything is written, or takes exactly its documented effect. '
  'Settings with the same meaning give the same archive, and comments, blank lines and indentation do not matter.',
  ['configurations', 'inputs'],
  'all single settings and pairs over an alphabet of valid, boundary and invalid values; all single edits and short insertions of lines in a complete configuration',
  'Tests use one configuration and one missing file.',
  ['config.c', 'aardwarc.c', 'vnum.c', 'warcinfo.c', 'main_store.c'],
  [('Config_Read', 'config.c'), ('AardWARC_New', 'aardwarc.c'), ('VNUM_2bytes', 'vnum.c')],
  observe=['exit status, stderr, resulting archive'])

p('C22', 'Silo numbers map to distinct, stable file names',
  'Silo number N always lives in one file: 0/NAME for N<100, 1/NN/NAME for N<10000, 2/NN/NN/NAME and so on, where NAME is silo.basename with N; new silos take the lowest free number from where the archive has got to, existing silos and foreign hold files are never taken over, and all operations find the silos of every number that exists. '
  '`mksilo` makes exactly the silo it is asked for, or refuses. A missing, stale or wrong `_.cache` file never changes any result except which silo numbers are used.',
  ['configurations', 'histories'],
  'silo numbers around every change of directory level; every set of existing/held/missing silos among the first few; every cache content over an alphabet',
  'The tests never have a hundred silos, and never alter the cache.',
  ['silo.c', 'wsilo.c', 'aardwarc.c', 'main_mksilo.c'],
  [('Silo_Filename', 'silo.c'), ('Silo_Iter', 'silo.c'), ('Wsilo_Next', 'wsilo.c'), ('AardWARC_ReadCache', 'aardwarc.c')],
  observe=['file names under silo.directory', 'results of operations'])

p('C23', 'Refused requests leave no trace',
  'A `store` that is refused (empty or unreadable input, MIME type not configured for that type of object, malformed -i or -r, a -r reference that is not in the archive, wrong options) exits non-zero, prints no ID, and leaves silos, index and directory exactly as they were; so do get, byid, dumpindex, info, audit, filter and cgi in all cases. '
  'Consequently metadata is only ever stored about objects that are in the archive.',
  ['inputs', 'histories'],
  'all combinations of type, MIME type, -i, -r and input over an alphabet of valid, boundary and invalid values, in a range of archive states',
  'The tests try about ten refusals on an empty archive and look at the message only.',
  ['main_store.c', 'index.c', 'main_get.c', 'main_byid.c'],
  [('main_store argument checks', 'main_store.c'), ('IDX_Valid_Id', 'index.c'), ('mime_type', 'main_store.c')],
  observe=['exit status, stdout, files under silo.directory'])

p('C24', 'Reports tell what is in the archive',
  '`byid FRAGMENT...` prints one line `id ID wt TYPE` for each index entry whose ID begins with the fragment (with or without the prefix, in upper or lower case; the empty fragment matches all; only the first 24 digits count) and nothing else, and exits with the number of lines, at most 255, or 0 with -e; a fragment with other than hexadecimal digits is refused. '
  '`get` delivers to stdout, or to the file given with -o, exactly the content of the object (nothing with -n, one gzip member with -z), and to stderr, or with -o to stdout, exactly the headers of its record (nothing with -q), which for a segmented object give length and digest of the whole. '
  '`info` prints the ID length, as JSON with -j; every other operation refuses -j and does nothing. None of them changes anything.',
  ['histories', 'inputs', 'configurations'],
  'every archive reached by operation histories up to a depth; every prefix of every ID and its neighbours; every combination of options; every number of entries around 255; every header length',
  'The tests ask byid for three fragments and run get with a few of its options.',
  ['main_byid.c', 'main_get.c', 'main_info.c', 'main.c', 'getjob.c', 'index.c'],
  [('byid_iter', 'main_byid.c'), ('main_get', 'main_get.c'), ('GetJob_Headers', 'getjob.c'), ('call_main', 'main.c')],
  observe=['stdout, stderr, exit status, output file'])

p('C25', 'Staged backups are complete and reach every silo',
  'Each run of utilities/select_silos.py puts into STAGING, in one step, the files of a selection of silos of at most AA_QUOTA bytes together: NAME.bin, which decrypts to the silo (AES256-CTR, IV derived from NAME), and the SHA256 and HMAC of it; STAGING never shows the files of an unfinished run. '
  'Silos are taken in the order of bytes added since last staged, then of time since, and only what has been seen in STAGING counts as staged: so without further growth every silo of at most AA_QUOTA bytes is staged within as many runs as there are silos, whatever silos have vanished or are too big, and wherever earlier runs were killed or failed. '
  'A run which cannot read or write something ends with a non-zero exit status. The silos are never changed.',
  ['histories', 'crash points', 'faults'],
  'every history of growth, loss and addition of silos and of runs up to a depth; each run killed or failing at every system call, followed by runs without fault; silo sizes around every buffer and the quota',
  'There are no tests of the backup utility.',
  ['utilities/select_silos.py'],
  [('main', 'utilities/select_silos.py'), ('Encrypt_File', 'utilities/select_silos.py'), ('Silo.sortkey', 'utilities/select_silos.py')],
  observe=['STAGING directory, exit status'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
