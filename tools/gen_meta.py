#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the one table below (run by hand after editing it)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def M(*a):
    return [dict(name=n, where=w) for n, w in a]

def S(*a):
    return [dict(name=n, meaning=m, where=w) for n, m, w in a]

PR = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), claim=None, na=None):
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, state=list(state), mechanism=mech, observe_at=list(observe), hook_needed=None),
                   claim=claim, na=na))

MAPF = ['dhara/map.c', 'dhara/map.h']
JF = ['dhara/journal.c', 'dhara/journal.h']
PROOF = 'contract-based deductive verification (own VC generator over the LLVM IR of /repo; z3/cvc5)'

prop('C01', 'Sectors read back what was last written to them, independently of others',
     'After a successful write or copy, reading that sector returns exactly the data written, until the sector is itself overwritten, copied over, trimmed or the map is cleared; '
     'operations on one sector never change what any other sector reads as. Looking up a sector gives the page holding its current data, a sector that is not mapped is reported as not found, and reading it gives all-0xff bytes.',
     ['inputs', 'histories', 'configurations'],
     'every sector number except 0xffffffff, every set of mapped sectors, every sequence of map operations, every valid chip geometry and gc ratio, with and without failing blocks',
     'map.c test writes 200 sectors in one geometry and checks them; the radix-tree path argument must hold for all 2^32 sector numbers and all histories.',
     MAPF + JF, M(('radix path trace/rewrite', 'dhara/map.c trace_path, dhara_map_write, dhara_map_copy_page, dhara_map_copy_sector'), ('lookup', 'dhara/map.c dhara_map_find, dhara_map_read')),
     S(('alt pointers', 'per-page metadata: sector id and 32 sibling-subtree pages', 'dhara/map.c meta_get_alt/meta_set_alt'), ('root', 'most recently written user page', 'dhara/journal.h')),
     ['dhara_map_read', 'dhara_map_find', 'dhara_map_write', 'dhara_map_copy_page', 'dhara_map_copy_sector'])
prop('C02', 'Trimming or clearing unmaps exactly the sectors it names',
     'After a successful trim the sector is not found and reads as blank, every other sector keeps its contents, and trimming a sector that is not mapped changes nothing; copying an unmapped sector over another one trims the destination. '
     'After clear no sector is mapped and the map is empty, also when clear is followed by a sync and a resume.',
     ['inputs', 'histories', 'configurations'],
     'every sector number, every set of mapped sectors (also one that shares all but one bit with the trimmed one, or is the last one mapped), every preceding history',
     'Tests trim 200 known sectors in one order; deletion rewrites a cousin path and must preserve every other path of an arbitrary tree.',
     MAPF, M(('deletion by rewriting a cousin', 'dhara/map.c try_delete'), ('clear', 'dhara/map.c dhara_map_clear, dhara/journal.c dhara_journal_clear')), (),
     ['dhara_map_trim', 'dhara_map_clear', 'dhara_map_copy_sector'])
prop('C03', 'Garbage collection, sync and bad-block recovery never change the map',
     'Garbage collection, synchronisation and the recovery of failing blocks move pages around but never change which sectors are mapped or what any sector contains. '
     'A page is dropped from the journal only when it no longer is the current page of its sector, or after that sector has been rewritten elsewhere.',
     ['histories', 'fault_sequences', 'configurations'],
     'every mapped set, every position of the journal head and tail, every sequence of block failures the journal can recover from',
     'Tests run gc and failure injection on a few seeded histories in one geometry.',
     MAPF + JF, M(('rewrite if current', 'dhara/map.c raw_gc'), ('filler', 'dhara/map.c pad_queue'), ('recovery loop', 'dhara/map.c try_recover'), ('sync', 'dhara/map.c dhara_map_sync'), ('gc', 'dhara/map.c dhara_map_gc')), (),
     ['dhara_map_gc', 'dhara_map_sync', 'dhara_map_read'])
prop('C04', 'Size and capacity are exact, and only a full map refuses new sectors',
     'The reported map size is always the number of mapped sectors: writing or copying to an unmapped sector adds one, overwriting adds none, trimming a mapped sector removes one, a failed operation and garbage collection leave it alone, and it survives sync and resume. '
     'A write fails with "map full" exactly when it would map a new sector and the size has reached the reported capacity; overwriting an existing sector never fails that way. '
     'Capacity is the good-block user pages less the garbage-collection reserve and the bad-block safety margin, never underflowing, and journal size is the number of user pages from the last-synced tail to the head.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every geometry (including chips too small to have capacity), every gc ratio 0..255, every history including operations that fail or are retried after recovery',
     'Tests compare the size at a few points of one history; failed and retried operations are not compared.',
     MAPF + JF, M(('count', 'dhara/map.c prepare_meta, try_delete, dhara_map_clear, dhara_map_resume'), ('capacity', 'dhara/map.c dhara_map_capacity, dhara/journal.c dhara_journal_capacity'), ('size', 'dhara/journal.c dhara_journal_size')), (),
     ['dhara_map_size', 'dhara_map_capacity', 'dhara_journal_size', 'dhara_journal_capacity'])
prop('C05', 'Everything synced survives power loss and resume',
     'Once a sync succeeds, the contents at that moment stay recoverable: if power is lost at any later instant, even while a page is being programmed or a block erased, resuming yields the state as of the last sync or of a later point of the history, never a mixture and never an older one. '
     'The pages and checkpoint of the last synced state are not erased, overwritten or retired before a later checkpoint that supersedes them is on the chip.',
     ['crash_points', 'histories', 'fault_sequences', 'configurations'],
     'every history, every instant of power loss between and inside NAND operations (known finding: power loss while a bad block with an unfinished checkpoint group is being recovered)',
     'Tests resume only after clean syncs (and a few scripted failures); crash points are not enumerated.',
     JF + MAPF, M(('synced tail', 'dhara/journal.c push_meta, dhara_journal_dequeue, skip_block, prepare_head'), ('checkpoint', 'dhara/journal.c push_meta'), ('sync until clean', 'dhara/map.c dhara_map_sync')),
     S(('tail_sync', 'tail recorded by the last checkpoint; nothing from here to the head may be erased', 'dhara/journal.h'), ('DIRTY flag', 'cleared only by a programmed checkpoint', 'dhara/journal.h')),
     ['dhara_map_sync', 'dhara_map_resume', 'NAND operations'])
prop('C06', 'The NAND programming rules are never violated',
     'Within a block pages are programmed in strictly increasing order, no page is programmed twice without an erase in between, and a block is erased before its first page is programmed after wrap-around. '
     'Blocks known to be bad are never erased or programmed, and every page and block number, offset and length passed to the driver lies within the chip.',
     ['histories', 'fault_sequences', 'configurations', 'crash_points'],
     'every geometry, every history of journal and map operations, every combination of failing and factory-bad blocks, also after resuming from an interrupted write',
     'The simulator in tests asserts this for the sampled histories only.',
     JF, M(('head preparation', 'dhara/journal.c prepare_head, next_upage'), ('block skipping', 'dhara/journal.c skip_block, recover_from, dump_meta'), ('resume', 'dhara/journal.c find_head')),
     S(('head', 'next page to program', 'dhara/journal.h')), ['dhara_nand_erase', 'dhara_nand_prog', 'dhara_nand_copy'])
prop('C07', 'Erasing never destroys a page the journal still holds',
     'No block is erased while it holds any page between the last-synced tail and the head, and the head never runs into the block holding the last-synced tail: if it would, the operation fails with "journal full" and changes nothing on the chip. '
     'No page between the last-synced tail and the head is ever programmed again.',
     ['histories', 'fault_sequences', 'configurations'],
     'every geometry and every relative position of head, tail and synced tail including wrap-around, every history with failing blocks',
     'A journal that laps its tail silently loses data only in rare alignments; jfill tests one geometry.',
     JF, M(('full check', 'dhara/journal.c prepare_head, skip_block'), ('tail', 'dhara/journal.c dhara_journal_dequeue, dhara_journal_peek')), (), ['dhara_nand_erase', 'DHARA_E_JOURNAL_FULL'])
prop('C08', 'The journal is a FIFO whose pages keep their data and metadata',
     'Enqueueing or copying appends one page with the given data and 132 bytes of metadata and makes it the root; every page already in the journal keeps its place, data and metadata. '
     'Peek gives the oldest page and dequeue removes exactly that one, never past the head; the root is none exactly when the journal holds no user page, and reading metadata of any held page returns what was stored with it, whether it is still buffered, dumped during recovery or in a checkpoint page.',
     ['histories', 'inputs', 'configurations', 'fault_sequences'],
     'every geometry and checkpoint period, every position in the group, block and chip including wrap-around, every interleaving of enqueue, copy, dequeue, clear and recovery',
     'journal tests run one geometry with a fixed metadata pattern in which most bytes are constant.',
     JF, M(('append', 'dhara/journal.c push_meta, dhara_journal_enqueue, dhara_journal_copy'), ('metadata lookup', 'dhara/journal.c dhara_journal_read_meta, hdr_user_offset'), ('FIFO', 'dhara/journal.c dhara_journal_peek, dhara_journal_dequeue, next_upage')), (),
     ['dhara_journal_enqueue', 'dhara_journal_read_meta', 'dhara_journal_peek', 'dhara_journal_dequeue'])
prop('C09', 'A failing block is evacuated completely and only then retired',
     'When programming or erasing a block fails, every page of that block that the journal holds is offered exactly once for rewriting before the block is marked bad, the metadata of its unfinished group stays readable until then, and the root returns to the last good page. '
     'Recovery restarts when a replacement block fails too, ends only after the rewritten pages are checkpointed, and no block that has not failed is ever marked bad.',
     ['fault_sequences', 'histories', 'configurations'],
     'every page at which a program, copy or erase may fail, including cascades of failures in replacement blocks and failures of the checkpoint page itself',
     'recovery tests script eight failure positions in one geometry.',
     JF + ['dhara/map.c'], M(('start', 'dhara/journal.c recover_from, dump_meta'), ('restart', 'dhara/journal.c restart_recovery'), ('enumeration', 'dhara/journal.c dhara_journal_next_recoverable'), ('finish', 'dhara/journal.c finish_recovery, push_meta')),
     S(('recover_root, recover_next, recover_meta', 'enumeration state and dumped metadata', 'dhara/journal.h')), ['dhara_nand_mark_bad', 'dhara_journal_next_recoverable'])
prop('C10', 'Wear is levelled: blocks are used strictly in rotation',
     'The journal head only moves forward through the chip, block after block with wrap-around, skipping only blocks that are bad or have just failed, and erases a block only when the head enters it. '
     'So between two erases of a block every other good block is used once, the epoch counts the wraps, and the bad-block estimate counts the blocks skipped in this and the previous pass.',
     ['histories', 'fault_sequences', 'configurations'],
     'every geometry, any history with skipped and failing blocks, wrap-around with the head on a skipped last block, dumped metadata at the end of the chip',
     'No test measures erase counts or the bad-block statistics.',
     JF, M(('head advance', 'dhara/journal.c next_upage, skip_block, push_meta, dump_meta'), ('statistics', 'dhara/journal.c roll_stats, skip_block')), (), ['dhara_nand_erase', 'checkpoint header'])
prop('C11', 'Failures are reported, never swallowed, and a null error pointer is allowed',
     'Every operation returns 0 exactly when it took effect and otherwise -1 with the error code of its cause stored through the error pointer; that pointer may be null in every call and nothing is stored on success (a successful resume may leave the code of an unreadable page it stepped over). '
     'An uncorrectable read stops the operation with that error instead of being treated as missing or stale data, and an operation that fails leaves the visible contents as they were.',
     ['fault_sequences', 'inputs', 'histories'],
     'every driver error at every call, every operation, with and without an error pointer',
     'Tests always pass an error pointer and inject only block failures, never read errors.',
     ['dhara/error.h', 'dhara/error.c'] + MAPF + JF, M(('error propagation', 'dhara/map.c my_err handling in all operations'), ('setting', 'dhara/error.h dhara_set_error'), ('journal errors', 'dhara/journal.c recover_from')), (),
     ['return values', 'err argument', 'dhara_strerror'])
prop('C12', 'No memory error or undefined arithmetic for any supported geometry',
     'For every geometry with 2^log2_ppb pages per block, a page size that can hold one checkpoint header and one metadata record, and at most 2^31 pages, no operation reads or writes outside the page buffer, the metadata buffers or the caller\'s buffers, and none shifts or overflows undefinedly. '
     'The checkpoint period is the largest power of two, at most a block, whose metadata fits in one page.',
     ['configurations', 'inputs', 'histories'],
     'every log2_page_size, log2_ppb and num_blocks in the supported range, every journal position',
     'All tests use one geometry (512-byte pages, 8 pages per block, 113 blocks).',
     JF + MAPF + ['dhara/bytes.h'], M(('period', 'dhara/journal.c choose_ppc'), ('slot offset', 'dhara/journal.c hdr_user_offset'), ('page numbers', 'dhara/journal.c, dhara/nand.h')), (), ['page_buf', 'sanitizer reports'])
prop('C13', 'Work per operation is bounded, independent of chip size',
     'A lookup reads at most 33 metadata records; garbage collecting one page reads at most 34 and programs at most one user page plus one checkpoint when no block fails. '
     'A write triggers at most gc_ratio+1 collections and only when the journal holds at least as many pages as the capacity, and a run of more than eight consecutive failing blocks ends in "too many bad blocks" instead of looping.',
     ['inputs', 'histories', 'configurations'],
     'every sector and map content, every gc ratio, every failure pattern',
     'No test counts NAND operations; worst-case paths need adversarial sector numbers.',
     MAPF + JF, M(('radix depth', 'dhara/map.c trace_path'), ('gc quota', 'dhara/map.c auto_gc'), ('retries', 'dhara/journal.c DHARA_MAX_RETRIES loops')), (), ['dhara_nand_read', 'dhara_nand_prog'])
prop('C14', 'Checkpoint pages and metadata follow the documented on-flash format',
     'Every checkpoint page holds the magic "Dha", the epoch, and little-endian tail, current and previous bad-block counts at bytes 0-15, the 4-byte little-endian sector count at 16-19, and from byte 20 the 132-byte metadata records of its group in page order: sector number then 32 alternate pages, little-endian, 0xff for filler and for unused records. '
     'It is written to the last page of its aligned group and only after the group\'s user pages.',
     ['inputs', 'histories', 'configurations'],
     'every group, every geometry, every field value',
     'Tests never look at bytes on flash; a consistent change of layout passes them and breaks every existing chip.',
     JF + MAPF + ['dhara/bytes.h'], M(('header', 'dhara/journal.c hdr_* functions, push_meta'), ('codec', 'dhara/bytes.h dhara_w32, dhara_r32'), ('metadata', 'dhara/map.c meta_set_id, meta_set_alt, ck_set_count')), (), ['dhara_nand_prog data'])
prop('C15', 'Resume restores the journal at its last checkpoint from the chip alone',
     'Resuming a chip finds the most recent readable checkpoint, takes root, tail, epoch, sector count and bad-block statistics from it, and continues on the first page after everything programmed, in the same block or at the start of the next one; with no checkpoint on the chip it reports an error and leaves an empty, usable map. '
     'It never modifies the chip.',
     ['crash_points', 'configurations', 'histories'],
     'every layout of bad blocks and every position of the last checkpoint including the last group of a block, the last block of the chip and epoch wrap-around, precise and imprecise is_free',
     'Tests resume at a few positions in one geometry.',
     JF + MAPF, M(('binary searches', 'dhara/journal.c find_checkblock, find_last_checkblock, find_last_group'), ('root and head', 'dhara/journal.c find_root, find_head'), ('resume', 'dhara/journal.c dhara_journal_resume, dhara/map.c dhara_map_resume')), (),
     ['dhara_journal_resume', 'dhara_map_resume'])
prop('C16', 'Hamming ECC corrects every single-bit error and detects double-bit errors',
     'For every chunk up to the maximum size, unmodified data against its generated 3-byte code gives syndrome zero, and repairing then reports success and changes nothing. '
     'Any single flipped bit in the data is corrected exactly, a single flipped bit in the code is reported as success with the data untouched, and any two flipped bits (in data, or one in data and one in the code) give a nonzero syndrome that is never accepted as a single error: repair reports failure and leaves the data unmodified.',
     ['inputs', 'configurations'], 'every chunk content, every chunk length up to the maximum, every error position',
     'hamming test tries one random 512-byte chunk and single-bit flips.',
     ['ecc/hamming.c', 'ecc/hamming.h'], M(('generate', 'ecc/hamming.c hamming_generate'), ('syndrome', 'ecc/hamming.c hamming_syndrome'), ('repair', 'ecc/hamming.c hamming_repair')), (), ['hamming_generate', 'hamming_syndrome', 'hamming_repair'],
     claim=('proof', 'generate equals the parity spec for all lengths (loop invariants), syndrome and repair contracts for all inputs, correction/detection as lemmas over the spec. Trusts clang IR extraction, the VC generator and the solvers.'))
prop('C17', 'BCH parity is the remainder code, and verification accepts exactly codewords',
     'For each of the four BCH codes, verification accepts a chunk exactly when its parity bytes are the ones generate produces for it, so unmodified data always verify. '
     'Up to 2t flipped bits in data or parity are always noticed (t = 1..4 for the four codes), for every chunk length up to the maximum.',
     ['inputs', 'configurations'], 'every chunk content and length up to 1016 bytes, every error pattern of at most 2t bits, all four codes',
     'bch test uses random chunks of a few lengths and at most t errors.',
     ['ecc/bch.c', 'ecc/bch.h'], M(('remainder', 'ecc/bch.c bch_generate, chunk_remainder'), ('verify', 'ecc/bch.c bch_verify'), ('polynomials', 'ecc/bch.c bch_1bit..bch_4bit tables')), (), ['bch_generate', 'bch_verify'],
     claim=('proof', 'generate/verify equal the polynomial-remainder spec for every length (loop invariants); generator-polynomial facts (roots, degree) discharged by evaluation. The BCH bound itself is a trusted theorem.'))
prop('C18', 'GF(2^13) tables and operations implement the field',
     'Exponent and logarithm tables are inverse to each other and to the powers of the generator of the field defined by x^13+x^4+x^3+x+1, the generator has full order 8191, and multiplication and division agree with polynomial arithmetic for all non-zero elements. '
     'The table-free build gives the same results.',
     ['inputs', 'configurations'], 'all 8192 table entries and all pairs of elements, with and without tables',
     'bch test exercises a few elements indirectly.',
     ['ecc/gf13.c', 'ecc/gf13.h'], M(('tables', 'ecc/gf13.c gf13_exp, gf13_log'), ('operations', 'ecc/gf13.h gf13_mul, gf13_div, gf13_wrap')), (), ['gf13_exp', 'gf13_log', 'gf13_mul', 'gf13_div'],
     claim=('proof', 'every table entry evaluated against the field definition; operations executed symbolically against the log/exp spec.'))
prop('C19', 'The CRC is IEEE 802.3 CRC-32 with inverted coefficients, and it chains',
     'For every buffer, length and carried checksum the result equals the IEEE 802.3 reflected CRC-32 (polynomial 0xEDB88320) of the bytes in order in inverted representation, so checksumming a buffer in pieces by carrying the value gives the value of checksumming it whole. '
     'Fully erased (all 0xff) data keep the initial checksum 0xffffffff, and changing any single byte of the data, or the carried value, always changes the checksum.',
     ['inputs'], 'every buffer, every length, every starting value, every split point',
     'crc32 test compares a few fixed blocks.',
     ['ecc/crc32.c', 'ecc/crc32.h'], M(('byte table', 'ecc/crc32.c crc32_nand')), (), ['crc32_nand'],
     claim=('proof', 'loop invariant against the bitwise recurrence for every length; chaining, erased-data and sensitivity facts as lemmas over the recurrence.'))
prop('C20', 'BCH repair corrects up to t bit errors in data and parity',
     'For each of the four BCH codes, repairing a chunk with at most t flipped bits anywhere in data and parity restores the data exactly, so that verification succeeds afterwards, for every chunk length up to the maximum. '
     'Repairing unmodified data changes nothing.',
     ['inputs', 'configurations'], 'every chunk content and length up to 1016 bytes, every error pattern of at most t bits, all four codes, both field variants',
     'bch test samples random errors on random chunks.',
     ['ecc/bch.c', 'ecc/gf13.c'], M(('locator', 'ecc/bch.c berlekamp_massey'), ('syndromes and roots', 'ecc/bch.c bch_repair')), (), ['bch_repair'])

exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PR:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('claim', 'na')}) + '\n')
checks, na = [], []
for p in PR:
    cl = CLAIMS.get(p['id'], p['claim'])
    if cl:
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'],
                           technique=cl[2] if len(cl) > 2 else PROOF, level=cl[0], level_note=cl[1]))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks in /repo: contracts live in /verif/specs and are applied to the IR extracted from /repo on every run.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
assert all(len(p['title']) <= 80 for p in PR), [p['id'] for p in PR if len(p['title']) > 80]
