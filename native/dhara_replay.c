/* Native replay search for the map and the journal: drives the real code of /repo/dhara over a simulated NAND chip with
 * bad blocks, failing programs/erases, ECC errors and power loss, and checks each documented guarantee with an oracle of
 * its own (nothing here looks inside the library).  Prints "ORACLE <tag>: ..." and the operation history of the first
 * failing run.     usage: dhara_replay PROFILES SECONDS SEED [ONLYSEED]      exit 0 nothing found, 1 found, 2 usage */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include "dhara/map.h"
#include "dhara/bytes.h"

static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 20); }
static int chance(int n) { return n > 0 && rnd() % n == 0; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static char *oplog; static size_t oplen, opcap; static int verbose;
static void lg(const char *f, ...)
{
	va_list ap;
	if (opcap - oplen < 400) { opcap = opcap * 2 + 65536; oplog = realloc(oplog, opcap); }
	va_start(ap, f); oplen += vsnprintf(oplog + oplen, 300, f, ap); va_end(ap);
}
static uint64_t cur_seed; static int cur_profile;
static char geom[200];
static void show_and_exit(void)
{
	size_t st = oplen > 7000 ? oplen - 7000 : 0;
	printf("profile %d seed %llu: %s\n%shistory: %s\n", cur_profile, (unsigned long long)cur_seed, geom, st ? "(last part of the) " : "", oplog ? oplog + st : "");
	fflush(stdout);
	_exit(1);
}
static void fail(const char *tag, const char *f, ...)
{
	va_list ap;
	printf("ORACLE %s: ", tag);
	va_start(ap, f); vprintf(f, ap); va_end(ap);
	printf("\n");
	show_and_exit();
}
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void) { printf("ORACLE MEM: sanitizer report\n"); show_and_exit(); }
static void onsig(int s) { printf("ORACLE %s: signal %d\n", s == SIGALRM ? "TERM" : "MEM", s); if (s == SIGALRM) printf("(an operation does not terminate)\n"); show_and_exit(); }

/* ------------------------------------------------------------------ simulated chip */
static struct dhara_nand nand;
#define NB nand.num_blocks
#define PPB (1u << nand.log2_ppb)
#define PSZ (1u << nand.log2_page_size)
struct page { uint8_t *d; uint8_t st; };                /* st: 0 erased, 1 programmed, 2 unreadable */
static struct page *pg; static uint8_t *bbad, *bfail; static unsigned *np; static int *ecount;
static unsigned c_prog_fail, c_copy_fail, c_erase_fail, c_ecc, bad_budget, imprecise_free;
static long crash_at; static int crash_mode; static jmp_buf crash_jb; static int crash_armed;
static unsigned long n_meta_reads, n_reads, n_progs, n_erases, n_faults, n_markbad;
static unsigned last_ckpt_page; static int ecc_hit, erased_since, wear_ok_any; static long last_erased;
static int resuming, torn;
/* pages that hold data which must survive */
static int (*page_protected)(unsigned p, char *why);
static int ckpt_seen, prot_cur_only; static int op_sector = -1;
static void commit_prot(void);

/* bad-block statistics and epoch, as a reader of the chip would count them */
static unsigned st_blk, st_cur, st_last, st_failed; static uint8_t st_epoch; static int st_ok;
static void st_move(unsigned b)
{
	while (st_blk != b) {
		if (st_failed) st_cur++;
		st_failed = 1;
		if (++st_blk >= nand.num_blocks) { st_blk = 0; st_last = st_cur; st_cur = 0; st_epoch++; }
	}
	st_failed = 0;
}
static void st_ckpt(unsigned p, const uint8_t *d)
{
	unsigned c = d[8] | d[9] << 8 | d[10] << 16 | (unsigned)d[11] << 24, l = d[12] | d[13] << 8 | d[14] << 16 | (unsigned)d[15] << 24;
	if (st_ok && (c != st_cur || l != st_last || d[3] != st_epoch)) fail("STAT", "checkpoint in page %u says epoch %u, %u bad blocks in this pass and %u in the last; it's epoch %u, %u and %u", p, d[3], c, l, st_epoch, st_cur, st_last);
	st_cur = c; st_last = l; st_epoch = d[3]; st_ok = 1;
}

static void page_clear(unsigned p) { free(pg[p].d); pg[p].d = NULL; pg[p].st = 0; }
static int crash_now(void) { return crash_armed && crash_at >= 0 && crash_at-- == 0; }
static void die(void) { torn++; lg("[power lost] "); crash_armed = 0; longjmp(crash_jb, 1); }

int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	if (b >= NB) fail("RANGE", "is_bad(%u) of %u blocks", b, NB);
	return bbad[b];
}
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	if (b >= NB) fail("RANGE", "mark_bad(%u) of %u blocks", b, NB);
	lg("<mark_bad %u> ", b);
	n_markbad++;
	if (!bfail[b]) fail("GOODMARK", "block %u is marked bad although no program, copy or erase in it failed", b);
	{ unsigned i; char w[100]; prot_cur_only = 1; for (i = 0; i < PPB && page_protected; i++) if (page_protected(b * PPB + i, w)) fail("BADMARK", "block %u is marked bad while its page %u is still needed: %s", b, b * PPB + i, w); prot_cur_only = 0; }
	if (crash_now()) { if (rnd() & 1) bbad[b] = 1; die(); }
	bbad[b] = 1;
}
static void spoil(unsigned b) { if (!bfail[b]) bad_budget--; bfail[b] = 1; n_faults++; }
static int may_spoil(unsigned b)                         /* at most 5 unusable blocks in any 8 in a row */
{
	unsigned o, q, n;
	for (o = 0; o < 8; o++) {
		for (n = 1, q = 0; q < 8; q++) { unsigned x = (b + 8 * NB - o + q) % NB; if (x != b) n += bfail[x]; }
		if (n > 5) return 0;
	}
	return 1;
}
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{
	unsigned i; char w[100];
	if (b >= NB) fail("RANGE", "erase(%u) of %u blocks", b, NB);
	commit_prot();
	if (bbad[b]) fail("PROTO", "erase of block %u, which is marked bad", b);
	for (i = 0; i < PPB && page_protected; i++) if (page_protected(b * PPB + i, w)) fail("ERASE", "erase of block %u destroys page %u: %s", b, b * PPB + i, w);
	/* wear levelling: blocks are used in cyclic order */
	if (last_erased >= 0 && !wear_ok_any && (long)b != last_erased) {
		unsigned q = last_erased + 1; if (q >= NB) q = 0;
		while (q != b && (bbad[q] || bfail[q])) q = q + 1 >= NB ? 0 : q + 1;
		if (q != b) fail("WEAR", "block %u erased after block %ld: skips good block %u", b, last_erased, q);
	} else if (last_erased == (long)b && !wear_ok_any && !bfail[b]) {
		if (np[b]) fail("WEAR", "block %u erased again although it was only partly filled", b);
	}
	last_erased = b; wear_ok_any = 0;
	st_move(b);
	lg("<erase %u> ", b);
	n_erases++;
	if (crash_now()) {
		int k = rnd() % 3;
		if (k) for (i = 0; i < PPB; i++) { page_clear(b * PPB + i); if (k == 2) pg[b * PPB + i].st = 2; }
		if (k) np[b] = k == 2 ? PPB : 0;
		die();
	}
	if (bfail[b] || (bad_budget && chance(c_erase_fail) && may_spoil(b))) {
		spoil(b); st_failed = 1;
		lg("<FAILS> ");
		if (err) *err = DHARA_E_BAD_BLOCK;
		return -1;
	}
	for (i = 0; i < PPB; i++) page_clear(b * PPB + i);
	np[b] = 0; ecount[b]++;
	return 0;
}
static unsigned lppc(void) { unsigned k = 1; while (k < nand.log2_ppb && 20 + 132 * ((1u << (k + 1)) - 1) <= PSZ) k++; return k; }
static int is_ckpt(unsigned p, const uint8_t *d) { return ((p + 1) & ((1u << lppc()) - 1)) == 0 && d[0] == 'D' && d[1] == 'h' && d[2] == 'a'; }
static int do_prog(dhara_page_t p, const uint8_t *data, dhara_error_t *err, int c)
{
	unsigned b = p >> nand.log2_ppb, i = p & (PPB - 1);
	if (b >= NB) fail("RANGE", "program of page %u, outside the chip", p);
	if (bbad[b]) fail("PROTO", "program of page %u in block %u, which is marked bad", p, b);
	if (imprecise_free && i < np[b]) {                    /* all-0xff pages may be programmed again */
		unsigned q;
		for (q = i; q < np[b] && dhara_nand_is_free(&nand, (p & ~(PPB - 1)) + q); q++);
		if (q == np[b]) { for (q = i; q < np[b]; q++) page_clear((p & ~(PPB - 1)) + q); np[b] = i; }
	}
	if (pg[p].st || i < np[b]) fail("PROTO", "program of page %u (index %u) in block %u, but page index %u was already programmed since the erase", p, i, b, np[b] - 1);
	n_progs++;
	if (crash_now()) {
		int k = rnd() % 3;
		if (k == 1) { pg[p].d = malloc(PSZ); memcpy(pg[p].d, data, PSZ); pg[p].st = 1; np[b] = i + 1; if (is_ckpt(p, data)) last_ckpt_page = p; }
		if (k == 2) { torn++; pg[p].st = 2; np[b] = i + 1; }
		die();
	}
	np[b] = i + 1;
	st_move(b);
	if (bfail[b] || (bad_budget && chance(c) && may_spoil(b))) {
		spoil(b); st_failed = 1;
		pg[p].st = 2;
		lg("<FAILS> ");
		if (err) *err = DHARA_E_BAD_BLOCK;
		return -1;
	}
	pg[p].d = malloc(PSZ); memcpy(pg[p].d, data, PSZ); pg[p].st = 1;
	return 0;
}
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err)
{
	lg("<prog %u> ", p);
	int r = do_prog(p, data, err, c_prog_fail);
	if (!r && is_ckpt(p, data)) st_ckpt(p, data);
	if (!r && is_ckpt(p, data)) { last_ckpt_page = p; ckpt_seen = 1; }
	return r;
}
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	unsigned i;
	if (p >= NB * PPB) fail("RANGE", "is_free of page %u, outside the chip", p);
	if (pg[p].st == 0) return 1;
	if (!imprecise_free || pg[p].st == 2) return 0;
	for (i = 0; i < PSZ; i++) if (pg[p].d[i] != 0xff) return 0;
	return 1;
}
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *data, dhara_error_t *err)
{
	if (p >= NB * PPB) fail("RANGE", "read of page %u, outside the chip", p);
	if (off > PSZ || len > PSZ - off) fail("RANGE", "read of page %u, offset %zu length %zu, page size %u", p, off, len, PSZ);
	n_reads++; if (len == DHARA_META_SIZE) n_meta_reads++;
	if (pg[p].st == 2 || chance(c_ecc)) {
		memset(data, 0xa5, len);
		if (pg[p].st != 2) { lg("<ECC %u> ", p); ecc_hit++; }
		if (err) *err = DHARA_E_ECC;
		return -1;
	}
	if (pg[p].st == 0) memset(data, 0xff, len); else memcpy(data, pg[p].d + off, len);
	return 0;
}
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t src, dhara_page_t dst, dhara_error_t *err)
{
	uint8_t *b;
	int r;
	lg("<copy %u->%u> ", src, dst);
	if (src >= NB * PPB) fail("RANGE", "copy from page %u, outside the chip", src);
	b = malloc(PSZ);
	if (dhara_nand_read(n, src, 0, PSZ, b, err) < 0) { free(b); return -1; }
	r = -9;
	if (crash_armed) { jmp_buf keep; memcpy(&keep, &crash_jb, sizeof keep); if (!setjmp(crash_jb)) r = do_prog(dst, b, err, c_copy_fail); else { free(b); memcpy(&crash_jb, &keep, sizeof keep); longjmp(crash_jb, 1); } memcpy(&crash_jb, &keep, sizeof keep); }
	else r = do_prog(dst, b, err, c_copy_fail);
	free(b);
	return r;
}
static void chip_setup(int lps, int lpb, unsigned nb)
{
	unsigned i;
	if (pg) { for (i = 0; i < NB * PPB; i++) free(pg[i].d); free(pg); free(bbad); free(bfail); free(np); free(ecount); }
	nand.log2_page_size = lps; nand.log2_ppb = lpb; nand.num_blocks = nb;
	pg = calloc((size_t)nb << lpb, sizeof *pg); bbad = calloc(nb, 1); bfail = calloc(nb, 1); np = calloc(nb, sizeof *np); ecount = calloc(nb, sizeof *ecount);
	c_prog_fail = c_copy_fail = c_erase_fail = c_ecc = 0; bad_budget = 0; imprecise_free = 0; crash_armed = 0; crash_at = -1;
	st_blk = st_cur = st_epoch = 0; st_failed = 1; st_last = nb >> 6; st_ok = 1;
	n_faults = n_markbad = 0; page_protected = NULL; last_erased = -1; wear_ok_any = 1; last_ckpt_page = 0xffffffff; ecc_hit = 0; resuming = 0; torn = 0; ckpt_seen = 0; prot_cur_only = 0;
}

/* ------------------------------------------------------------------ map level */
#define MAXS 400
static unsigned ns;                                      /* sectors in play */
static uint32_t sid[MAXS];                               /* their numbers */
static uint32_t cur[MAXS], synced[MAXS];                 /* content tags, 0 = unmapped */
static uint32_t (*hist)[MAXS]; static unsigned nhist, chist;
static uint32_t nexttag;
static struct dhara_map map; static uint8_t *pbuf, *dbuf, *dbuf2;
static uint8_t gcr;

static void pattern(uint32_t tag, uint8_t *b)
{
	unsigned i;
	if (tag % 13 == 5) { memset(b, 0xff, PSZ); return; }
	for (i = 0; i < PSZ; i += 4) { uint32_t v = tag * 2654435761u + i * 40503u; if (tag % 7 == 1 && i < 16) v = i ? v : 0x00616844; memcpy(b + i, &v, 4); }
}
static void push_hist(void)
{
	if (nhist == chist) { chist = chist ? chist * 2 : 256; hist = realloc(hist, chist * sizeof *hist); }
	memcpy(hist[nhist++], cur, sizeof cur);
}
static unsigned count_cur(void) { unsigned i, c = 0; for (i = 0; i < ns; i++) c += cur[i] != 0; return c; }
static int page_matches(unsigned p, uint32_t tag)
{
	pattern(tag, dbuf2);
	return pg[p].st == 1 && !memcmp(pg[p].d, dbuf2, PSZ);
}
/* raw radix walk over flash by an independent reader of the documented format; returns page or NONE, -1 on damage */
static uint32_t le32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static int raw_meta(uint32_t p, uint8_t *out)
{
	unsigned k = lppc(), m = (1u << k) - 1, c = p | m;
	if (p >= NB * PPB || (p & m) == m || pg[c].st != 1) return -1;
	memcpy(out, pg[c].d + 20 + 132 * (p & m), 132);
	return 0;
}
static long raw_find(uint32_t root, uint32_t s)
{
	uint8_t m[132];
	uint32_t p = root; int d;
	for (d = 0; d < 32; d++) {
		if (raw_meta(p, m) < 0) return -2;
		if (le32(m) == 0xffffffff) return -1;
		if ((le32(m) ^ s) >> (31 - d) & 1) { p = le32(m + 4 + 4 * d); if (p == 0xffffffff) return -1; }
	}
	if (raw_meta(p, m) < 0 || le32(m) != s) return -3;
	return p;
}
static int cfg_norecover;                                /* no failing blocks in this run */
static void check_sector(const char *tag, unsigned i, const char *when)
{
	dhara_error_t e = DHARA_E_NONE;
	dhara_page_t loc = 0x12345678;
	int eh = ecc_hit;
	unsigned long r0;
	int r;
	r0 = n_meta_reads;
	r = dhara_map_find(&map, sid[i], &loc, &e);
	if (n_meta_reads - r0 > 33) fail("RT", "find of sector 0x%x reads metadata %lu times", sid[i], n_meta_reads - r0);
	if (ecc_hit != eh) { if (r == 0 || e != DHARA_E_ECC) fail("ERR", "find of sector 0x%x met an ECC error but returned %d, error %d", sid[i], r, e); return; }
	if (cur[i] && r < 0) fail(e == DHARA_E_NOT_FOUND ? tag : "ERR", "%s: sector 0x%x should be mapped (tag %u), find returns error %d", when, sid[i], cur[i], e);
	if (!cur[i] && (r == 0 || e != DHARA_E_NOT_FOUND)) fail(r == 0 ? tag : "ERR", "%s: sector 0x%x should be unmapped, find returns %d, error %d", when, sid[i], r, e);
	if (cur[i] && e != DHARA_E_NONE) fail("ERR", "find succeeds but sets error %d", e);
	if (cur[i] && !page_matches(loc, cur[i])) fail(tag, "%s: sector 0x%x: page %u does not hold its data (tag %u)", when, sid[i], loc, cur[i]);
	memset(dbuf, 0x5a, PSZ);
	e = DHARA_E_NONE;
	r = dhara_map_read(&map, sid[i], dbuf, &e);
	if (ecc_hit != eh) { if (r == 0 || e != DHARA_E_ECC) fail("ERR", "read of sector 0x%x met an ECC error but returned %d, error %d", sid[i], r, e); return; }
	if (r < 0 || e != DHARA_E_NONE) fail("ERR", "%s: read of sector 0x%x returns %d, error %d", when, sid[i], r, e);
	if (cur[i]) pattern(cur[i], dbuf2); else memset(dbuf2, 0xff, PSZ);
	if (memcmp(dbuf, dbuf2, PSZ)) fail(tag, "%s: sector 0x%x reads wrong data (expected tag %u)", when, sid[i], cur[i]);
}
static void check_all(const char *tag, const char *when)
{
	unsigned i;
	for (i = 0; i < ns; i++) check_sector(tag, i, when);
	if (dhara_map_size(&map) != count_cur()) fail("COUNT", "%s: size is %u, %u sectors are mapped", when, dhara_map_size(&map), count_cur());
}
static void check_flash(const char *when)
{	/* after a successful sync everything must be readable from flash in the documented format */
	unsigned i; const uint8_t *h;
	if (last_ckpt_page == 0xffffffff) { if (count_cur()) fail("FMT", "%s: nothing on flash, %u sectors mapped", when, count_cur()); return; }
	if (pg[last_ckpt_page].st != 1) fail("FMT", "%s: last checkpoint page %u is not readable", when, last_ckpt_page);
	if (((last_ckpt_page + 1) & ((1u << lppc()) - 1))) fail("FMT", "%s: checkpoint at page %u, not at the end of a group of %u", when, last_ckpt_page, 1u << lppc());
	h = pg[last_ckpt_page].d;
	if (le32(h + 16) != count_cur()) fail("FMT", "%s: checkpoint at page %u records %u sectors, %u are mapped", when, last_ckpt_page, le32(h + 16), count_cur());
	for (i = 0; i < ns; i++) {
		long p = raw_find(last_ckpt_page - 1, sid[i]);
		if (p < -1) fail("FMT", "%s: radix walk on flash for sector 0x%x is broken (%ld)", when, sid[i], p);
		if ((p >= 0) != (cur[i] != 0)) fail("FMT", "%s: on flash sector 0x%x is %smapped, expected %u", when, sid[i], p >= 0 ? "" : "un", cur[i]);
		if (p >= 0 && !page_matches(p, cur[i])) fail("FMT", "%s: on flash sector 0x%x -> page %ld, wrong data", when, sid[i], p);
	}
}
/* pages holding live data: found by content (tags are unique per write) */
static uint32_t *ptag_hint;
static void commit_prot(void)
{	/* a checkpoint outside recovery makes the current contents the durable ones */
	unsigned i;
	if (page_protected == NULL || cur_profile == 6 || !ckpt_seen || dhara_journal_in_recovery(&map.journal)) return;
	for (i = 0; i < ns; i++) synced[i] = (int)i == op_sector ? 0 : cur[i];
}
static int prot_map(unsigned p, char *why)
{	/* page p is protected if it holds the only copy of current or last-synced data of some sector */
	unsigned i, q;
	if (pg[p].st != 1) return 0;
	for (i = 0; i < ns; i++) {
		int k;
		for (k = 0; k < 2 - prot_cur_only; k++) {
			uint32_t t = k ? synced[i] : cur[i];
			if (!t || t % 13 == 5) continue;
			if (memcmp(pg[p].d + 16, (uint32_t[]){ t * 2654435761u + 16 * 40503u }, 4)) continue;
			if (!page_matches(p, t)) continue;
			for (q = 0; q < NB * PPB; q++)
				if (q / PPB != p / PPB && pg[q].st == 1 && !memcmp(pg[q].d + 16, pg[p].d + 16, 4) && page_matches(q, t)) break;
			if (q == NB * PPB) { sprintf(why, "only copy of sector 0x%x's %s data", sid[i], k ? "last-synced" : "current"); return 1; }
		}
	}
	return 0;
}
static void reinit(void)
{
	free(pbuf);
	pbuf = malloc(PSZ);
	memset(pbuf, 0x33, PSZ);
	memset(&map, 0x55, sizeof map);
	dhara_map_init(&map, &nand, pbuf, gcr);
}
static int tag_of(unsigned i)                            /* what does the resumed map say about sector i? */
{
	dhara_page_t loc; dhara_error_t e = 0; unsigned h; uint32_t t;
	if (dhara_map_find(&map, sid[i], &loc, &e) < 0) return e == DHARA_E_NOT_FOUND ? 0 : -2;
	if (loc >= NB * PPB || pg[loc].st != 1) return -3;
	for (h = nhist; h-- > 0;) { t = hist[h][i]; if (t && page_matches(loc, t)) return t; }
	return -1;
}
static void resume_check(const char *when, int must_exact)
{
	dhara_error_t e = DHARA_E_NONE;
	unsigned h, i; int r, ok = -1;
	static int got[MAXS];
	page_protected = NULL;
	reinit();
	resuming = 1;
	r = dhara_map_resume(&map, &e);
	resuming = 0;
	lg("resume=%d ", r);
	if (r < 0 && e != DHARA_E_TOO_BAD) { if (e == DHARA_E_NONE) fail("ERR", "resume fails without setting the error"); }
	for (i = 0; i < ns; i++) got[i] = tag_of(i);
	for (h = nhist; h-- > 0 && ok < 0;) {
		for (i = 0; i < ns; i++) if (got[i] != (int)hist[h][i] && !(got[i] > 0 && hist[h][i] && got[i] % 13 == 5 && hist[h][i] % 13 == 5)) break;
		if (i == ns) ok = h;
		if (must_exact) break;
	}
	if (ok < 0) {
		for (i = 0; i < ns; i++) if (got[i] != (int)hist[must_exact ? nhist - 1 : 0][i]) break;
		fail("DUR", "%s: the resumed map equals no state since the last sync (%u candidate states); resume returned %d; e.g. sector 0x%x has tag %d, at last sync it had %u, before the crash %u",
		     when, nhist, r, sid[i % ns], got[i % ns], hist[0][i % ns], hist[nhist - 1][i % ns]);
	}
	memcpy(cur, hist[ok], sizeof cur);
	memcpy(synced, cur, sizeof cur);
	nhist = 0; push_hist();
	if (dhara_map_size(&map) != count_cur()) fail("COUNT", "%s: resumed size is %u, %u sectors are mapped", when, dhara_map_size(&map), count_cur());
	check_all("DUR", when);
	page_protected = prot_map;
	wear_ok_any = 1;
}
static int op_bound_ok(unsigned long mr, unsigned long pr) { return 0 * mr * pr; }
static int expect_error(const char *op, int r, dhara_error_t e, int eh)
{	/* returns 1 if the run must stop */
	if (r == 0) {
		if (e != DHARA_E_NONE) fail("ERR", "%s succeeds but sets error %d", op, e);
		return 0;
	}
	if (r != -1) fail("ERR", "%s returns %d", op, r);
	if (e == DHARA_E_NONE || e == DHARA_E_RECOVER || e == DHARA_E_NOT_FOUND || e >= DHARA_E_MAX || e == DHARA_E_BAD_BLOCK) fail("ERR", "%s fails with error %d", op, e);
	if (e == DHARA_E_MAP_FULL) return 2;
	if (ecc_hit != eh) { if (e != DHARA_E_ECC) fail("ERR", "%s met an ECC error but reports %d", op, e); return 3; }
	if (torn && e == DHARA_E_ECC) { lg("(torn page unreadable) "); return 1; }
	if (cfg_norecover) fail("LIVE", "%s fails with error %d although no NAND operation failed (%u mapped, capacity %u)", op, e, count_cur(), dhara_map_capacity(&map));
	if (!torn && (e == DHARA_E_ECC || getenv("STRICT"))) fail("LIVE", "%s fails with error %d although every failing block was reported as such", op, e);
	lg("(error %d, run ends) ", e);
	return 1;
}

static void run_map(int profile, int nops)
{
	volatile int i, k; int j; unsigned cap;
	volatile int crashes = 0;
	static const int lps_t[] = { 9, 9, 10, 11, 8, 9 };
	int lps = lps_t[rnd() % 6], lpb = 2 + rnd() % 4, nb;
	if (profile == 7) { lps = 8 + (rnd() & 1); lpb = lps == 9 ? 1 : 1 + rnd() % 3; }
	nb = 12 + rnd() % 30;
	if (lpb >= 4) nb = 12 + rnd() % 12;
	if (profile == 0 && chance(3)) nb = 10 + rnd() % 4;
	if (profile == 0 && chance(6)) { nb = 64 + rnd() % 80; lpb = 2; }
	if (profile == 5) { lps = 15 + rnd() % 3; lpb = lps - 7 + rnd() % 2; nb = 12; nops = nops / 8; }
	chip_setup(lps, lpb, nb);
	gcr = rnd() % 3 ? 1 + rnd() % 8 : rnd() % 2 ? 0 : rnd() % 40;
	free(dbuf); free(dbuf2); dbuf = malloc(PSZ); dbuf2 = malloc(PSZ);
	imprecise_free = chance(3);
	cfg_norecover = 1;
	for (j = 0; j < nb; j++) if ((profile == 0 ? chance(60) : chance(15)) && may_spoil(j)) bbad[j] = bfail[j] = 1;
	if (profile == 1 || profile == 3 || profile == 7) {
		cfg_norecover = 0;
		bad_budget = 1 + rnd() % (nb / 4 + 1);
		k = 1 + rnd() % 60;
		c_prog_fail = 2 * k; c_copy_fail = 2 * k; c_erase_fail = chance(2) ? k / 4 + 1 : k * 2;
	}
	if (profile == 4) c_ecc = 100 + rnd() % 400;
	snprintf(geom, sizeof geom, "log2_page_size=%d log2_ppb=%d num_blocks=%d gc_ratio=%d imprecise_is_free=%d factory-bad=%s", lps, lpb, nb, gcr, imprecise_free, "see history");
	for (j = 0; j < nb; j++) if (bbad[j]) lg("[block %d bad] ", j);
	reinit();
	{ dhara_error_t e = 0; int r; resuming = 1; unsigned ce = c_ecc; c_ecc = 0; r = dhara_map_resume(&map, &e); c_ecc = ce; resuming = 0; if (r != -1 || e != DHARA_E_TOO_BAD) fail("DUR", "resume of an erased chip returns %d, error %d", r, e); }
	if (dhara_map_size(&map)) fail("COUNT", "a fresh map has size %u", dhara_map_size(&map));
	cap = dhara_map_capacity(&map);
	if (cap > (unsigned)nb << lpb) fail("COUNT", "capacity %u exceeds the %u pages of the chip", cap, nb << lpb);
	ns = 1 + rnd() % 24;
	if (chance(3)) ns = 2 + rnd() % 4;
	if (chance(3) || profile == 0) { ns = cap + 3; if (ns > 3 && chance(2)) ns = cap; }
	if (ns > 60 && !chance(4)) ns = 60;
	if (ns > MAXS) ns = MAXS;
	if (!ns) ns = 1;
	for (j = 0; j < (int)ns; j++) sid[j] = j;
	if (chance(2)) for (j = 0; j < (int)ns; j++) { int q; do { sid[j] = chance(2) ? rnd() & 0x7fffffff : (uint32_t)j << (rnd() % 20); if (chance(4)) sid[j] ^= 0x80000000u; if (chance(9)) sid[j] = 0xfffffffeu - rnd() % 4; for (q = 0; q < j; q++) if (sid[q] == sid[j]) break; } while (q < j || sid[j] == 0xffffffffu); }
	memset(cur, 0, sizeof cur); memset(synced, 0, sizeof synced); nhist = 0; push_hist(); nexttag = 1;
	page_protected = prot_map;
	k = rnd() % 4;
	int w_sync = k == 0 ? 2 : k == 1 ? 10 : 40, w_gc = chance(2) ? 3 : 0, w_trim = rnd() % 3 * 10, w_clear = chance(4) ? 2 : 0, w_copy = chance(2) ? 15 : 0;
	for (i = 0; i < nops; i++) {
		volatile unsigned s = rnd() % ns; unsigned d;
		int op, r, eh = ecc_hit, st;
		dhara_error_t e = DHARA_E_NONE, *ep = chance(20) ? NULL : &e;
		uint32_t save[MAXS];
		if (chance(3)) s = rnd() % (1 + ns / 4);
		if ((profile == 2 || profile == 3) && crash_at < 0 && crashes < 30 && chance(40)) { crash_at = rnd() % (chance(2) ? 12 : 80); }
		if (setjmp(crash_jb)) {
			crashes++;
			crash_at = -1;
			wear_ok_any = 1; st_ok = 0;
			/* known finding D5 (KNOWN_FINDINGS.txt): power lost while a bad block is being
			 * recovered whose unfinished checkpoint group was dumped elsewhere */
			if ((map.journal.flags & DHARA_JOURNAL_F_RECOVERY) && map.journal.recover_meta != DHARA_PAGE_NONE && !getenv("STRICT")) {
				lg("(lost power during a recovery with dumped metadata, run ends) ");
				return;
			}
			resume_check("after power loss", 0);
			continue;
		}
		crash_armed = crash_at >= 0;
		alarm(20);
		unsigned long m0 = n_meta_reads, p0 = n_progs, e0 = n_erases, f0 = n_faults;
		ckpt_seen = 0; op_sector = -1;
		op = rnd() % (100 + w_sync + w_gc + w_trim + w_clear + w_copy);
		memcpy(save, cur, sizeof save);
		cap = dhara_map_capacity(&map);
		if (op < 70) {
			uint32_t t = nexttag++;
			int full = !cur[s] && count_cur() >= cap;
			pattern(t, dbuf);
			op_sector = s;
			lg("\nwrite(0x%x,t%u) ", sid[s], t);
			uint32_t o = cur[s];
			if (!full) { hist = hist; cur[s] = t; push_hist(); cur[s] = o; }   /* may or may not be in effect at a crash */
			r = dhara_map_write(&map, sid[s], dbuf, ep);
			crash_armed = 0;
			if (!ep && r < 0) { lg("fails without err "); return; }
			st = expect_error("write", r, e, eh);
			if (r == 0) { if (full && cap == dhara_map_capacity(&map)) fail("COUNT", "write of a new sector succeeds although %u of %u are mapped", count_cur(), cap); cur[s] = t; }
			else if (st == 2) { if (!full && count_cur() + (cur[s] == 0) <= dhara_map_capacity(&map)) fail("COUNT", "MAP_FULL with %u of %u mapped (sector %smapped)", count_cur(), cap, cur[s] ? "" : "not "); if (!full) { nhist--; } }
			else if (st == 1) return;
			else if (!full) nhist--;
			if (profile == 0 && r == 0 && n_faults == f0) {
				unsigned g = gcr ? gcr : 1;
				if (n_meta_reads - m0 > 33 + (g + 1) * 34ul) fail("RT", "one write reads metadata %lu times (gc_ratio %u)", n_meta_reads - m0, g);
				if (n_progs - p0 > 2 + (g + 1) * 2ul) fail("RT", "one write programs %lu pages (gc_ratio %u)", n_progs - p0, g);
				if (n_erases - e0 > 1 + (g + 1ul)) fail("RT", "one write erases %lu blocks", n_erases - e0);
			}
			check_sector("RYW", s, "after write");
			check_sector("RYW", rnd() % ns, "another sector after write");
		} else if (op < 85) {
			check_sector("RYW", s, "read");
		} else if (op < 100) {
			check_sector("RYW", rnd() % ns, "read");
			if (chance(10)) check_all("RYW", "full check");
		} else if ((op -= 100) < w_sync) {
			lg("\nsync ");
			r = dhara_map_sync(&map, ep);
			crash_armed = 0;
			if (!ep && r < 0) return;
			st = expect_error("sync", r, e, eh);
			if (st == 1) return;
			if (r == 0) { memcpy(synced, cur, sizeof cur); nhist = 0; push_hist(); if (!n_faults || 1) check_flash("after sync"); }
			{ unsigned ce = c_ecc; c_ecc = 0; check_all("GC", "after sync"); c_ecc = ce; }
			if (r == 0 && chance(12) && (profile != 4)) { lg("\nre-resume "); st_ok = 0; resume_check("clean restart after sync", 1); }
		} else if ((op -= w_sync) < w_gc) {
			lg("\ngc ");
			r = dhara_map_gc(&map, ep);
			crash_armed = 0;
			if (!ep && r < 0) return;
			st = expect_error("gc", r, e, eh);
			if (st == 1) return;
			if (profile == 0 && n_meta_reads - m0 > 34) fail("RT", "one gc step reads metadata %lu times", n_meta_reads - m0);
			if (profile == 0 && n_progs - p0 > 2) fail("RT", "one gc step programs %lu pages", n_progs - p0);
			{ unsigned ce = c_ecc; c_ecc = 0; check_all("GC", "after gc"); c_ecc = ce; }
		} else if ((op -= w_gc) < w_trim) {
			uint32_t o = cur[s];
			op_sector = s;
			lg("\ntrim(0x%x) ", sid[s]);
			cur[s] = 0; push_hist(); cur[s] = o;
			r = dhara_map_trim(&map, sid[s], ep);
			crash_armed = 0;
			if (!ep && r < 0) return;
			st = expect_error("trim", r, e, eh);
			if (st == 1) return;
			if (r == 0) cur[s] = 0; else nhist--;
			check_sector("TRIM", s, "after trim");
			{ unsigned ce = c_ecc; c_ecc = 0; check_all("TRIM", "after trim"); c_ecc = ce; }
		} else if ((op -= w_trim) < w_clear) {
			lg("\nclear ");
			dhara_map_clear(&map);
			crash_armed = 0;
			memset(cur, 0, sizeof cur);
			push_hist();
			check_all("TRIM", "after clear");
		} else {
			uint32_t o; dhara_page_t loc;
			int full, direct = chance(3) && cur[s];
			d = rnd() % ns;
			if (chance(3)) { unsigned z; for (z = 0; z < ns && cur[z]; z++); if (z < ns) d = z; }
			full = cur[s] && !cur[d] && count_cur() >= cap;
			o = cur[d];
			op_sector = d;
			lg("\ncopy_sector(0x%x->0x%x) ", sid[s], sid[d]);
			if (!full) { cur[d] = cur[s]; push_hist(); cur[d] = o; }
			if (direct && profile != 4 && dhara_map_find(&map, sid[s], &loc, &e) < 0) fail("RYW", "copy source not found");
			(void)loc;
			r = dhara_map_copy_sector(&map, sid[s], sid[d], ep);
			crash_armed = 0;
			if (!ep && r < 0) return;
			st = expect_error("copy_sector", r, e, eh);
			if (st == 1) return;
			if (r == 0) { if (full && cap == dhara_map_capacity(&map)) fail("COUNT", "copy to a new sector succeeds although %u of %u are mapped", count_cur(), cap); cur[d] = cur[s]; }
			else if (st == 2 && !full && count_cur() + (cur[d] == 0) <= dhara_map_capacity(&map)) fail("COUNT", "MAP_FULL with %u of %u mapped", count_cur(), cap);
			else if (!full) nhist--;
			{ unsigned ce = c_ecc; c_ecc = 0; check_sector("COPY", d, "after copy_sector"); check_all("COPY", "after copy_sector"); c_ecc = ce; }
		}
		alarm(0);
		if (dhara_journal_is_clean(&map.journal)) memcpy(synced, cur, sizeof cur);
		if (dhara_map_size(&map) != count_cur() && profile != 4) fail("COUNT", "size is %u, %u sectors are mapped", dhara_map_size(&map), count_cur());
		if (profile == 4 && ecc_hit > 20) c_ecc = 0;
	}
	crash_armed = 0; c_ecc = 0;
	check_all("RYW", "at the end of the run");
	(void)op_bound_ok;
}

/* ------------------------------------------------------------------ journal level: a durable queue of (data, meta) */
struct qent { uint32_t tag; dhara_page_t page; };
static struct qent *Q; static unsigned qh, qt, qcap;     /* entries qt..qh-1, oldest first */
static unsigned qsync;                                   /* first entry that must survive */
static int prot_q(unsigned p, char *why)
{
	unsigned i;
	for (i = qsync; i < qh; i++) if (Q[i].page == p && Q[i].tag) { sprintf(why, "queue entry %u", Q[i].tag); return 1; }
	return 0;
}
static struct dhara_journal jr;
static void mk_meta(uint32_t tag, uint8_t *m) { int i; for (i = 0; i < 132; i++) m[i] = (uint8_t)(tag * 31 + i * 7 + (tag >> 8)); }
static void jcheck(const char *when)
{
	unsigned i; uint8_t m[132], w[132]; dhara_error_t e = 0;
	if (qh == qt) return;
	for (i = qt; i < qh; i++) {
		if (!Q[i].tag || (!chance(4) && i + 3 < qh)) continue;
		memset(m, 0x11, sizeof m);
		mk_meta(Q[i].tag, w);
		if (dhara_journal_read_meta(&jr, Q[i].page, m, &e) < 0) fail("JQ", "%s: metadata of page %u unreadable, error %d", when, Q[i].page, e);
		if (memcmp(m, w, 132)) fail("JQ", "%s: metadata of queued page %u is wrong", when, Q[i].page);
		pattern(Q[i].tag, dbuf2);
		if (pg[Q[i].page].st != 1 || memcmp(pg[Q[i].page].d, dbuf2, PSZ)) fail("JQ", "%s: data of queued page %u is wrong", when, Q[i].page);
	}
}
static void run_journal(int nops)
{
	int i, j, lps = 8 + rnd() % 4, lpb = 1 + rnd() % 5, nb = 4 + rnd() % 12;
	uint8_t m[132]; dhara_error_t e; dhara_page_t p; unsigned lost = 0;
	chip_setup(lps, lpb, nb);
	free(dbuf); free(dbuf2); dbuf = malloc(PSZ); dbuf2 = malloc(PSZ);
	for (j = 0; j < nb; j++) if (chance(20) && may_spoil(j)) bbad[j] = bfail[j] = 1;
	snprintf(geom, sizeof geom, "journal, log2_page_size=%d log2_ppb=%d num_blocks=%d", lps, lpb, nb);
	for (j = 0; j < nb; j++) if (bbad[j]) lg("[block %d bad] ", j);
	free(pbuf); pbuf = malloc(PSZ); memset(pbuf, 0x33, PSZ); memset(&jr, 0x77, sizeof jr);
	dhara_journal_init(&jr, &nand, pbuf);
	resuming = 1; e = 0;
	if (dhara_journal_resume(&jr, &e) != -1) fail("DUR", "resume of an erased chip succeeds");
	resuming = 0;
	if (dhara_journal_root(&jr) != DHARA_PAGE_NONE || dhara_journal_peek(&jr) != DHARA_PAGE_NONE || dhara_journal_size(&jr) != 0) fail("JQ", "an empty journal has root %u, size %u", dhara_journal_root(&jr), dhara_journal_size(&jr));
	qh = qt = qsync = 0; nexttag = 1;
	page_protected = prot_q;
	for (i = 0; i < nops; i++) {
		int op = rnd() % 100; unsigned cap = (NB << nand.log2_ppb);
		alarm(20);
		if (qcap < qh + 8) { qcap = qcap * 2 + 1024; Q = realloc(Q, qcap * sizeof *Q); }
		if (op < 55) {
			uint32_t t = nexttag++; int r, nodata = chance(8), copy = !nodata && chance(5) && qh > qt && Q[qh - 1].tag;
			if (t % 13 == 5) t = nexttag++;
			unsigned sz0 = dhara_journal_size(&jr);
			if (copy) { t = Q[qh - 1].tag; }
			pattern(t, dbuf); mk_meta(t, m);
			e = 0;
			lg("\n%s(t%u) ", copy ? "copy" : nodata ? "enqueue-pad" : "enqueue", t);
			r = copy ? dhara_journal_copy(&jr, Q[qh - 1].page, m, &e) : dhara_journal_enqueue(&jr, nodata ? NULL : dbuf, nodata ? NULL : m, &e);
			if (r < 0) {
				lg("error %d ", e);
				if (e != DHARA_E_JOURNAL_FULL && e != DHARA_E_TOO_BAD) fail("ERR", "enqueue fails with error %d", e);
				if (dhara_journal_size(&jr) == 0 && !lost && e == DHARA_E_JOURNAL_FULL && qsync == qh) fail("LIVE", "an empty journal is full");
			} else {
				p = dhara_journal_root(&jr);
				if (p >= cap) fail("JQ", "root %u after enqueue", p);
				Q[qh].tag = nodata ? 0 : t; Q[qh].page = p; qh++;
				if (nodata) { memset(m, 0x11, 132); if (dhara_journal_read_meta(&jr, p, m, &e) < 0) fail("JQ", "padding metadata unreadable"); for (j = 0; j < 132; j++) if (m[j] != 0xff) fail("JQ", "padding metadata is not erased"); }
				if (dhara_journal_is_clean(&jr)) qsync = qt;
				(void)sz0;
				unsigned k; dhara_page_t pk;
				for (k = qt; k + 1 < qh; k++) if (Q[k].page == p) fail("JQ", "page %u enqueued twice while still queued", p);
				pk = dhara_journal_peek(&jr);
				if (pk == DHARA_PAGE_NONE) fail("JQ", "queue is empty after enqueue");
			}
		} else if (op < 85) {
			if (qh > qt) {
				p = dhara_journal_peek(&jr);
				lg("\npeek=%u dequeue ", p);
				if (p != Q[qt].page) fail("JQ", "peek is %u, oldest queued page is %u", p, Q[qt].page);
				dhara_journal_dequeue(&jr);
				qt++;
				if (dhara_journal_is_clean(&jr)) qsync = qt;
				if (qh > qt && dhara_journal_root(&jr) != Q[qh - 1].page) fail("JQ", "root %u after dequeue, newest page is %u", dhara_journal_root(&jr), Q[qh - 1].page);
				if (qh == qt && dhara_journal_root(&jr) != DHARA_PAGE_NONE) fail("JQ", "root %u after dequeue of the last page", dhara_journal_root(&jr));
			} else {
				if (dhara_journal_peek(&jr) != DHARA_PAGE_NONE) fail("JQ", "peek of an empty queue is %u", dhara_journal_peek(&jr));
				dhara_journal_dequeue(&jr);
			}
		} else if (op < 87) {
			lg("\nclear ");
			dhara_journal_clear(&jr);
			qt = qh;
			if (dhara_journal_root(&jr) != DHARA_PAGE_NONE || dhara_journal_peek(&jr) != DHARA_PAGE_NONE) fail("JQ", "clear leaves root %u", dhara_journal_root(&jr));
		} else if (op < 90 && dhara_journal_is_clean(&jr) && qh > qt) {
			lg("\nrestart ");
			free(pbuf); pbuf = malloc(PSZ); memset(pbuf, 0x33, PSZ);
			dhara_journal_init(&jr, &nand, pbuf);
			resuming = 1;
			if (dhara_journal_resume(&jr, &e) < 0) fail("DUR", "resume of a clean journal fails, error %d", e);
			resuming = 0; wear_ok_any = 1; st_ok = 0;
			if (dhara_journal_root(&jr) != Q[qh - 1].page) fail("DUR", "resumed root %u, newest page %u", dhara_journal_root(&jr), Q[qh - 1].page);
			{ /* the tail on flash may be older than the tail in memory: skip what was dequeued since */
				dhara_page_t pk = dhara_journal_peek(&jr); unsigned z = qt; int guard = 0;
				while (pk != Q[qt].page && guard++ < 100000) { if (pk == DHARA_PAGE_NONE) fail("DUR", "resumed queue lacks its oldest page %u", Q[qt].page); dhara_journal_dequeue(&jr); pk = dhara_journal_peek(&jr); }
				(void)z;
			}
			qsync = qt;
		} else if (chance(4)) { memset(dhara_journal_cookie(&jr), rnd(), DHARA_COOKIE_SIZE); }
		else if (chance(10)) { dhara_journal_mark_dirty(&jr); if (dhara_journal_is_clean(&jr)) fail("JQ", "mark_dirty leaves the journal clean"); }
		if (dhara_journal_size(&jr) < qh - qt) fail("JQ", "size %u is less than the %u queued pages", dhara_journal_size(&jr), qh - qt);
		jcheck("queue");
		alarm(0);
	}
}

int main(int argc, char **argv)
{
	double t_end; uint64_t seed; int only = argc > 4; unsigned long runs = 0, k = 0;
	const char *prof;
	if (argc < 4) return 2;
	prof = argv[1];
	t_end = now() + atof(argv[2]);
	seed = strtoull(argv[3], 0, 0);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	__sanitizer_set_death_callback(on_death);
	signal(SIGALRM, onsig); signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
	do {
		cur_profile = prof[k++ % strlen(prof)] - '0';
		cur_seed = only ? strtoull(argv[4], 0, 0) : seed * 1000000ull + runs;
		rs = 0x9e3779b97f4a7c15ull ^ (cur_seed * 0xd1342543de82ef95ull); rnd(); rnd(); rnd();
		oplen = 0; if (oplog) oplog[0] = 0;
		if (cur_profile == 6) run_journal(200 + rnd() % 1500);
		else run_map(cur_profile, 50 + rnd() % 900);
		runs++;
	} while (!only && now() < t_end);
	printf("dhara_replay %s: %lu evaluations, nothing found\n", prof, runs);
	return 0;
}
