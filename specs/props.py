"""property id -> jobs, labels, replay search, trusted base"""
import replays

COMMON = {'inv', 'pre', 'safety', 'loop'}
TRUSTED = ['clang-18 -O0 front end and opt-18 sroa/simplifycfg/loop-simplify (extraction of /repo sources to LLVM IR)',
           '/verif/engine (IR parser, symbolic executor, VC generator)', 'z3 4.8.12 / 4.x python bindings and cvc5 1.1.2']
PROPS = {}


def P(pid, jobs, **kw):
    PROPS[pid] = dict(jobs=[(j if isinstance(j, tuple) else (j, m, 'job_' + j, {})) for m, js in jobs for j in js], **kw)


BCHN = ['bch_1bit', 'bch_2bit', 'bch_3bit', 'bch_4bit']
P('C16', [('ecc', ['ham_lemmas', 'ham_generate', 'ham_syndrome', 'ham_repair'])], replay=replays.ecc('ham'),
  assumptions=['chunk length <= HAMMING_MAX_CHUNK_SIZE; chunk and ECC buffers do not overlap'])
P('C17', [('ecc', ['bch_defs'] + [('bch_%s_%s' % (f, n), 'ecc', 'job_bch_' + f, dict(nm=n)) for n in BCHN for f in ('generate', 'verify')])],
  replay=replays.ecc('bch'),
  trusted=['BCH bound (a code whose generator has roots alpha^1..alpha^2t has minimum distance >= 2t+1): coding-theory theorem, '
           'its hypotheses (roots, field, length) are discharged from the tables'],
  assumptions=['chunk length <= BCH_MAX_CHUNK_SIZE (1016); chunk and ECC buffers do not overlap'])
P('C18', [('ecc', ['gf_tables', 'gf_notables'])], replay=replays.ecc('gf', 'gf_nt'))
P('C19', [('ecc', ['crc', 'crc_lemmas'])], replay=replays.ecc('crc'))
P('C20', [], bounded=[replays.bch_repair_bounded], level='other',
  explanation='bounded stand-in: bch_repair (Berlekamp-Massey, syndromes and root search over pointer-indexed polynomials) is outside the reach of the '
              'contracts; the real function is executed on every small error pattern and on random ones. Not counted as proved.')


# ------------------------------------------------------------------ journal
def JW(labels, invs=None, parts=(2, 1, 2), rf=None, ph=True):
    """enqueue (with and without data), copy, and the contracts of prepare_head and recover_from they rest on"""
    out = []
    for n, (nm, kw) in enumerate((('enqueue', dict(nodata=False)), ('enqueue_nodata', dict(nodata=True)), ('copy', {}))):
        fn = 'job_copy' if nm == 'copy' else 'job_enqueue'
        for i in range(parts[n]):
            out.append(('%s_%d' % (nm, i), 'journal', fn, dict(kw, labels=set(labels), invs=invs, part=(i, parts[n]))))
    for i in range(2):
        out.append(('recover_from_%d' % i, 'journal', 'job_recover_from', dict(part=(i, 2), labels=rf)))
    out.append(('prepare_head', 'journal', 'job_prepare_head', {}))
    return [('journal', out)]


def JS(*names):
    return [('journal', list(names))]


def JR(*logs):
    out = []
    for lg in logs:
        x = 'log' if lg else 'any'
        for n in ('find_root', 'find_last_group', 'find_head', 'find_checkblock', 'find_last_checkblock', 'cp_free'):
            if lg or n != 'cp_free':
                out.append(('resume_%s_%s' % (n, x), 'journal', 'job_resume_fn', dict(name=n, log=lg)))
        out += [('resume_%s' % x, 'journal', 'job_resume', dict(log=lg)), ('map_resume_%s' % x, 'journal', 'job_map_resume', dict(log=lg))]
    return [('journal', out)]


NANDENV = 'NAND driver contracts: in-range calls only; a failed program/erase reports BAD_BLOCK, a failed read ECC; programmed pages keep their content until their block is erased'
DEAD = 'after a NAND failure that ends in JOURNAL_FULL or TOO_BAD (known finding D4) nothing is claimed about later calls'
JASS = [NANDENV, DEAD, 'chips of at least 2 blocks, 2..2^30 pages per block, 2^8..2^30-byte pages, at most 2^31 pages',
        'the journal invariant holds initially: established by init/resume (see C12, C15)', 'the caller retries after RECOVER by evacuating the pages offered by next_recoverable']
P('C06', JW({'proto'}) + JR(False) + JS('read_meta', 'peek', 'dequeue', 'clear', 'next_recoverable'), labels={'proto'},
  replay=replays.dhara('1327', 'PROTO', 'RANGE'), assumptions=JASS)
P('C07', JW({'keep'}) + JS('dequeue', 'peek', 'clear'), labels={'keep'}, replay=replays.dhara('61732', 'ERASE', 'DUR', 'JQ'), assumptions=JASS)
P('C08', JW({'fifo', 'meta'}, 'W', (3, 2, 3)) + JS('read_meta', 'peek', 'dequeue', 'clear'), labels={'fifo', 'meta'}, replay=replays.dhara('6173', 'JQ', 'LIVE'),
  assumptions=JASS)
P('C09', JW({'recover', 'mark'}, 'R') + JS('next_recoverable'), labels={'recover', 'mark'}, replay=replays.dhara('1637', 'BADMARK', 'GOODMARK', 'LIVE'), assumptions=JASS)
P('C10', JW({'wear', 'fmt'}, 'W', (1, 1, 1), {'wear', 'fmt', 'inv'}), labels={'wear', 'fmt'}, replay=replays.dhara('1602', 'WEAR', 'STAT'), assumptions=JASS)
P('C14', JW({'fmt', 'sync'}, 'K', (1, 1, 1), {'fmt'}) + JS('clear'), labels={'fmt', 'sync'}, replay=replays.dhara('0123', 'FMT', 'STAT'), assumptions=JASS)


# ------------------------------------------------------------------ map
def MP(labels, names, lemmas=True):
    """map jobs; posts with other labels are the business of other properties"""
    L = set(labels) | {'inv'}
    W = dict(write=('job_write', dict(what='write')), copy_page=('job_write', dict(what='copy_page')), copy_sector=('job_write', dict(what='copy_sector')))
    out = []
    for n in names.split():
        fn, kw = W.get(n, ('job_' + n, {}))
        out.append(('map_' + n, 'map', fn, dict(kw, labels=L)))
    if lemmas:
        out += [('map_append_plain', 'map', 'job_append_lemma', dict(kind='plain')), ('map_append_delete', 'map', 'job_append_lemma', dict(kind='delete')),
                ('map_dequeue', 'map', 'job_dequeue_lemma', {})]
    return [('map', out)]


MASS = ['the journal operations satisfy the contracts of C06-C10 and C14 (proved separately); the map layer is verified against their abstraction (pages held between tail and root, '
        'metadata and data of held pages, the root, the recovery window), written down in specs/map.py h_enqueue, h_copy, h_read_meta, h_peek, h_dequeue, h_clear, h_next_recoverable',
        'NAND data are opaque values: a programmed page reads back as what was programmed until its block is erased (driver contract)',
        DEAD, 'the sector number is not 0xffffffff (DHARA_SECTOR_NONE)', 'the number of mapped sectors is a ghost counter tied to the tree by: no sector is mapped when it is zero, and it is one '
        'when only one sector is mapped (fewer than 2^32 pages)', 'the map invariant holds initially: an empty journal (init), or established by resume (see C15)',
        'posts of one map operation that belong to another property (contents, size, errors, work) are proved by that property\'s check']
RASS = [NANDENV, 'the chip resume meets holds a log (stated in specs/journal.py Chip.log): the blocks used in the current pass come before those of the previous one, each block that was used has a readable first '
        'checkpoint (otherwise it counts as bad), gaps of unusable blocks are shorter than DHARA_MAX_RETRIES, in the last block the programmed groups form a prefix and one of its checkpoints is readable, '
        'the last checkpoint was written by a journal whose invariant held. That every history of journal operations leaves such a chip is argued from C06, C07, C10 and C14, not machine-checked',
        'during resume the driver answers every question about the same page the same way',
        'is_free may call an all-0xff page free, and the last page written may be such a page: the log then counts as ending earlier',
        'known findings D5 (C05) and D7 (C15) are outside what is claimed']
P('C15', JR(True, False), labels={'resume'}, replay=replays.dhara('2301', 'DUR', 'RYW', 'FMT', 'STAT'), assumptions=RASS)
P('C05', JW({'keep', 'sync', 'mark'}, 'K', (2, 1, 2)) + JS('dequeue', 'clear', 'peek') + JR(True) + MP({'sync'}, 'sync', lemmas=False), labels={'keep', 'sync', 'mark', 'resume'},
  replay=replays.dhara('2301', 'DUR', 'ERASE'), assumptions=JASS + RASS)
MALL = 'try_delete trace_path try_recover copy_sector write copy_page sync trim gc find read clear'
P('C01', MP({'ryw', 'stay'}, MALL) + JW({'meta', 'fifo'}, 'W', (2, 2, 2)) + JS('read_meta', 'peek', 'dequeue', 'clear'),
  labels={'ryw', 'stay', 'meta', 'fifo'}, replay=replays.dhara('0167', 'RYW', 'GC', 'JQ'), assumptions=MASS + JASS)
P('C02', MP({'trim'}, 'try_delete trace_path try_recover copy_sector trim gc clear find') + JS('read_meta', 'peek', 'dequeue', 'clear', 'counts'),
  labels={'trim', 'sync'}, replay=replays.dhara('031267', 'FMT', 'TRIM', 'RYW', 'DUR'), assumptions=MASS)
P('C03', MP({'stay', 'evac'}, MALL) + JW({'meta', 'fifo', 'recover'}, 'W', (2, 2, 2)) + JS('read_meta', 'peek', 'dequeue', 'next_recoverable'),
  labels={'stay', 'evac', 'meta', 'fifo', 'recover'}, replay=replays.dhara('1067', 'GC', 'RYW', 'JQ'), assumptions=MASS + JASS)
P('C04', MP({'count', 'full'}, MALL + ' capacity') + JW({'fmt'}, 'K', (1, 1, 1), {'fmt'}) + JS('counts', 'clear', 'init', ('map_init', 'journal', 'job_init', dict(map_=True))),
  labels={'count', 'full', 'fmt'}, replay=replays.dhara('0127', 'COUNT', 'FMT'), assumptions=MASS + JASS)
P('C11', MP({'err'}, MALL) + JW({'err'}, '', (1, 1, 1), {'err'}) + JR(False) + JS('read_meta', 'peek', 'dequeue', 'clear', 'next_recoverable'),
  labels={'err'}, replay=replays.dhara('1403', 'ERR'), assumptions=MASS + JASS)
P('C13', MP({'work'}, 'trace_path try_recover copy_sector write copy_page trim gc find read', lemmas=False) + JW({'work'}, '', (1, 1, 1), {'work'}) + JS('read_meta'),
  labels={'work'}, common={'safety', 'loop'}, replay=replays.dhara('0157', 'LIVE', 'TERM'), assumptions=MASS + JASS)
P('C12', MP(set(), MALL + ' capacity', lemmas=False) + JW(set(), '', (1, 1, 1), set()) + JR(False) +
  JS('read_meta', 'peek', 'dequeue', 'clear', 'next_recoverable', 'counts', 'init', ('map_init', 'journal', 'job_init', dict(map_=True))),
  labels={'geom'}, common={'safety', 'loop', 'pre'}, replay=replays.dhara('570136', 'MEM', 'RANGE'), assumptions=MASS + JASS)
