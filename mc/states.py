"""Named archives that checks start from: each a history (see hist.py)"""
from .warc import enc_rec
from .gen import sha

# 300 index entries of objects in a silo that is not there (never looked at), so that housekeeping works in several batches
MANY = b''.join(enc_rec(sha(b'%d' % i)[:24], 3, 90, i) for i in range(300)).hex()

BASES = {
    'empty': [],
    'one': [['store', 'r300.a']],
    'two': [['store', 'r300.a'], ['store', 't500.b']],
    'full': [['store', 'r300.a'], ['store', 'r2800.b']],
    'seg': [['store', 'r7000.d']],
    'mix': [['store', 'r7000.d'], ['store', 'r300.a'], ['meta', 'r300.a', 'r200.m']],
    'hk': [['store', 'r300.a'], ['store', 'r7000.d'], ['hk'], ['store', 't500.b']],
    'left': [['store', 'r300.a'], ['hk'], ['store', 't500.b'], ['mv', 'index.appendix', 'index.housekeep'], ['store', 'r100.c']],
    'ro': [['store', 'r300.a'], ['ro', 0]],
    'held': [['store', 'r300.a'], ['touch', '0/00000000.warc.gz.hold', '00']],
    'gap': [['store', 'r300.a'], ['run', 'mksilo', '2']],
    'nocache': [['store', 'r300.a'], ['rm', '_.cache']],
    'old': [['store', 'r100.a'], ['store', 'r7000.d'], ['meta', 'r100.a', 'r60.m'], ['old']],
    'oldhalf': [['store', 'r100.a'], ['store', 'r7000.d'], ['meta', 'r100.a', 'r60.m'], ['old', 2], ['hk']],
    'big': [['store', 'r300.a'], ['touch', 'index.appendix', MANY], ['store', 't500.b']],
    'bigleft': [['store', 'r300.a'], ['touch', 'index.appendix', MANY[:64 * 150]], ['hk'], ['touch', 'index.appendix', MANY[64 * 150:]], ['store', 't500.b'], ['mv', 'index.appendix', 'index.housekeep'], ['store', 'r7000.d']],
}
