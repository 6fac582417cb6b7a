/* Native replay search for the ECC codecs: runs the real code of /repo/ecc on generated inputs against an independent
 * reference and prints the first failing input.   usage: ecc_replay MODE SECONDS SEED   (exit 0 nothing found, 1 found) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include "ecc/bch.h"
#include "ecc/hamming.h"
#include "ecc/crc32.h"
#include "ecc/gf13.h"

static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static double t_end;
static unsigned long evals;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void dump(const char *n, const uint8_t *p, size_t len)
{
	size_t i;
	printf("  %s (%zu bytes) = ", n, len);
	for (i = 0; i < len; i++) printf("%02x", p[i]);
	printf("\n");
}
static void fill(uint8_t *p, size_t n)
{
	size_t i;
	int k = rnd() % 6;
	for (i = 0; i < n; i++)
		p[i] = k == 0 ? 0xff : k == 1 ? 0 : k == 2 ? (rnd() % 8 ? 0xff : rnd()) : k == 3 ? (1 << (rnd() & 7)) : rnd();
}
#define BAD(...) do { printf("FAILING INPUT: " __VA_ARGS__); printf("\n"); } while (0)

/* exact-size heap copies, so that AddressSanitizer sees every stray access */
static uint8_t *dup(const uint8_t *p, size_t n) { uint8_t *q = malloc(n ? n : 1); memcpy(q, p, n); return q; }

/* ---- crc ---- */
static uint32_t rcrc(const uint8_t *p, size_t n, uint32_t c)
{
	size_t i; int b;
	for (i = 0; i < n; i++) {
		c ^= (uint8_t)~p[i]; /* erased byte contributes nothing to a zero state; carry is complemented below */
		for (b = 0; b < 8; b++) c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1;
	}
	return c;
}
static int do_crc(void)
{
	uint8_t buf[600];
	while (now() < t_end) {
		size_t n = rnd() % 4 ? rnd() % 40 : rnd() % 600;
		uint32_t carry = rnd() % 3 ? (rnd() ^ (rnd() << 16)) : CRC32_INIT;
		fill(buf, n);
		uint8_t *h = dup(buf, n);
		uint32_t got = crc32_nand(h, n, carry), want = ~rcrc(buf, n, ~carry);
		evals++;
		if (got != want || memcmp(h, buf, n)) {
			BAD("crc32_nand(len=%zu, carry=0x%08x) = 0x%08x, reference 0x%08x", n, carry, got, want);
			dump("block", buf, n);
			return 1;
		}
		size_t k = n ? rnd() % (n + 1) : 0;
		uint32_t two = crc32_nand(h + k, n - k, crc32_nand(h, k, carry));
		if (two != got) {
			BAD("crc32_nand split at %zu of %zu gives 0x%08x, whole 0x%08x (carry 0x%08x)", k, n, two, got, carry);
			dump("block", buf, n);
			return 1;
		}
		free(h);
	}
	return 0;
}

/* ---- hamming ---- */
static uint32_t rsig(const uint8_t *p, size_t n)
{	/* pair i of the signature: parity of the zero bits whose position has bit i clear / set */
	uint32_t s = 0; size_t i; int b, k;
	for (i = 0; i < n; i++)
		for (b = 0; b < 8; b++)
			if (!(p[i] >> b & 1)) {
				unsigned pos = i * 8 + b;
				for (k = 0; k < 12; k++) s ^= (pos >> k & 1) ? 2u << (2 * k) : 1u << (2 * k);
			}
	return s;
}
static int do_ham(void)
{
	uint8_t buf[512], e[3];
	(void)rsig;
	while (now() < t_end) {
		size_t n = rnd() % 4 ? 512 : rnd() % 513;
		fill(buf, n);
		uint8_t *h = dup(buf, n), *eh = malloc(3);
		hamming_generate(h, n, eh);
		memcpy(e, eh, 3);
		evals++;
		if (memcmp(h, buf, n)) { BAD("hamming_generate changed the chunk, len %zu", n); dump("chunk", buf, n); return 1; }
		size_t z; for (z = 0; z < n && buf[z] == 0xff; z++);
		if (z == n && (e[0] & e[1] & e[2]) != 0xff) { BAD("erased chunk of %zu bytes: ECC is not erased", n); return 1; }
		hamming_ecc_t s0 = hamming_syndrome(h, n, eh);
		if (s0) { BAD("fresh chunk has syndrome 0x%06x, len %zu", s0, n); dump("chunk", buf, n); return 1; }
		int it;
		for (it = 0; it < 40; it++) {
			int tot = n * 8 + 24, a = rnd() % tot, b = rnd() % tot;
			int ne = rnd() % 2 + 1;
			if (ne == 2 && a == b) ne = 1;
			if (it < 12 && n) { a = (rnd() % (n * 8)); a = rnd() % 2 ? (int)((1u << (rnd() % 12)) % (n * 8)) : a; }
			if (ne == 2 && a == b) ne = 1;
			memcpy(h, buf, n); memcpy(eh, e, 3);
			if (a < (int)n * 8) h[a >> 3] ^= 1 << (a & 7); else eh[(a - n * 8) >> 3] ^= 1 << ((a - n * 8) & 7);
			if (ne == 2) { if (b < (int)n * 8) h[b >> 3] ^= 1 << (b & 7); else eh[(b - n * 8) >> 3] ^= 1 << ((b - n * 8) & 7); }
			hamming_ecc_t s = hamming_syndrome(h, n, eh);
			if (!s) { BAD("%d-bit error (bits %d,%d of %zu-byte chunk + 3 ECC bytes) gives a zero syndrome", ne, a, ne == 2 ? b : -1, n); dump("chunk", buf, n); return 1; }
			int r = hamming_repair(h, n, s);
			evals++;
			if (ne == 1 && (r != 0 || memcmp(h, buf, n))) {
				BAD("1-bit error at bit %d of %zu-byte chunk not repaired: repair returned %d, syndrome 0x%06x", a, n, r, s);
				dump("chunk", buf, n); return 1;
			}
			if (ne == 2 && r == 0) {
				BAD("2-bit error at bits %d,%d of %zu-byte chunk: repair claims success, syndrome 0x%06x", a, b, n, s);
				dump("chunk", buf, n); return 1;
			}
		}
		free(h); free(eh);
	}
	return 0;
}

/* ---- gf13 ---- */
static unsigned rmul(unsigned a, unsigned b)
{
	unsigned r = 0; int i;
	for (i = 0; i < 13; i++) if (b >> i & 1) r ^= a << i;
	for (i = 25; i >= 13; i--) if (r >> i & 1) r ^= 0x201b << (i - 13);
	return r;
}
static int do_gf(void)
{
	unsigned a, b, k;
	for (a = 0; a < 8192; a++) {
		evals++;
		if (gf13_mulx(a) != rmul(a, 2) && a) { BAD("gf13_mulx(%u) = %u, field says %u", a, gf13_mulx(a), rmul(a, 2)); return 1; }
		if (a && rmul(gf13_divx(a), 2) != a) { BAD("gf13_divx(%u) = %u is not a/x", a, gf13_divx(a)); return 1; }
	}
	for (k = 0; now() < t_end && k < 40000000; k++) {
		a = k < 8191 ? k + 1 : rnd() % 8191 + 1; b = k < 8191 ? 8191 - k : rnd() % 8191 + 1;
		evals++;
		if (gf13_mul(a, b) != rmul(a, b)) { BAD("gf13_mul(%u,%u) = %u, field says %u", a, b, gf13_mul(a, b), rmul(a, b)); return 1; }
		unsigned q = gf13_div(a, b);
		if (q >= 8192 || rmul(q, b) != a) { BAD("gf13_div(%u,%u) = %u, times divisor is %u", a, b, q, rmul(q & 8191, b)); return 1; }
	}
	return 0;
}

/* ---- bch ---- */
static const struct bch_def *defs[4] = { &bch_1bit, &bch_2bit, &bch_3bit, &bch_4bit };
static unsigned apow[8191];
static int synd_zero(const uint8_t *c, size_t n, const uint8_t *e, int deg, int syns)
{
	int j; size_t p;
	for (j = 1; j <= syns; j++) {
		unsigned y = 0;
		for (p = 0; p < n * 8; p++) if (!(c[p >> 3] >> (p & 7) & 1)) y ^= apow[p * j % 8191];
		for (p = 0; p < (size_t)deg; p++) if (!(e[p >> 3] >> (p & 7) & 1)) y ^= apow[(n * 8 + p) * j % 8191];
		if (y) return 0;
	}
	return 1;
}
static int flip_run(int t, const uint8_t *buf, size_t n, const uint8_t *e, const int *pos, int ne)
{
	const struct bch_def *d = defs[t - 1];
	uint8_t *h = dup(buf, n), *eh = dup(e, d->ecc_bytes);
	int i, r;
	for (i = 0; i < ne; i++) {
		if (pos[i] < (int)n * 8) h[pos[i] >> 3] ^= 1 << (pos[i] & 7);
		else { int q = pos[i] - n * 8; eh[q >> 3] ^= 1 << (q & 7); }
	}
	r = 0;
	if (ne && bch_verify(d, h, n, eh) == 0) { BAD("bch_%dbit: %d-bit error in %zu-byte chunk passes verification", t, ne, n); r = 1; }
	if (!r) {
		bch_repair(d, h, n, eh);
		if (memcmp(h, buf, n) || memcmp(eh, e, d->ecc_bytes)) { BAD("bch_%dbit: %d-bit error in %zu-byte chunk is not repaired", t, ne, n); r = 1; }
		else if (bch_verify(d, h, n, eh)) { BAD("bch_%dbit: repaired chunk does not verify", t); r = 1; }
	}
	evals++;
	if (r) { printf("  error bit positions (chunk bits first, then ECC bits):"); for (i = 0; i < ne; i++) printf(" %d", pos[i]); printf("\n"); dump("chunk", buf, n); dump("ecc", e, d->ecc_bytes); }
	free(h); free(eh);
	return r;
}
static int do_bch(int repair)
{
	uint8_t buf[BCH_MAX_CHUNK_SIZE], e[8];
	unsigned i, v = 1;
	static const size_t lens[] = { 1, 2, 3, 7, 8, 16, 64, 100, 512, BCH_MAX_CHUNK_SIZE };
	for (i = 0; i < 8191; i++) { apow[i] = v; v = rmul(v, 2); }
	int first = 1;
	while (now() < t_end || first) {
		int t;
		first = 0;
		for (t = 1; t <= 4; t++) {
			const struct bch_def *d = defs[t - 1];
			size_t n = lens[rnd() % (repair ? 7 : 10)];
			if (rnd() % 16 == 0) n = lens[rnd() % 10];
			if (rnd() % 8 == 0) n = 0;
			fill(buf, n);
			uint8_t *h = dup(buf, n), *eh = dup(e, d->ecc_bytes);
			bch_generate(d, h, n, eh);
			evals++;
			if (memcmp(h, buf, n)) { BAD("bch_%dbit: generate changed the chunk", t); return 1; }
			if (!synd_zero(h, n, eh, d->degree, 2 * t)) { BAD("bch_%dbit: generated codeword has a non-zero syndrome, len %zu", t, n); dump("chunk", buf, n); dump("ecc", eh, d->ecc_bytes); return 1; }
			size_t z; for (z = 0; z < n && buf[z] == 0xff; z++);
			if (z == n) for (i = 0; i < (unsigned)d->ecc_bytes; i++) if (eh[i] != 0xff) { BAD("bch_%dbit: erased chunk has ECC byte %u = %02x", t, i, eh[i]); return 1; }
			memcpy(e, eh, d->ecc_bytes);
			if (bch_verify(d, h, n, eh)) { BAD("bch_%dbit: fresh chunk does not verify, len %zu", t, n); dump("chunk", buf, n); return 1; }
			free(h); free(eh);
			int pos[4], k, it, nb = n * 8 + d->degree;
			for (it = 0; it < (repair ? 12 : 6); it++) {
				int ne = rnd() % 3 ? t : rnd() % (t + 1);
				for (k = 0; k < ne; k++) {
					int q, dup;
					do { q = rnd() % 5 == 0 ? (int)(nb - 1 - rnd() % d->degree) : rnd() % 7 == 0 && k ? (pos[k - 1] + 1) % nb : (int)(rnd() % nb);
						for (dup = 0, i = 0; i < (unsigned)k; i++) dup |= pos[i] == q; } while (dup);
					pos[k] = q;
				}
				if (repair) { if (flip_run(t, buf, n, e, pos, ne)) return 1; }
				else {
					uint8_t *h2 = dup(buf, n), *e2 = dup(e, d->ecc_bytes);
					for (k = 0; k < ne; k++) { if (pos[k] < (int)n * 8) h2[pos[k] >> 3] ^= 1 << (pos[k] & 7); else { int q = pos[k] - n * 8; e2[q >> 3] ^= 1 << (q & 7); } }
					evals++;
					if ((bch_verify(d, h2, n, e2) == 0) != synd_zero(h2, n, e2, d->degree, 2 * t)) {
						BAD("bch_%dbit: verify disagrees with the reference on a %d-bit error, len %zu", t, ne, n);
						for (k = 0; k < ne; k++) printf(" pos %d", pos[k]);
						dump("chunk", buf, n); return 1;
					}
					free(h2); free(e2);
				}
			}
		}
	}
	return 0;
}
/* every pattern of 1 and 2 errors on a short chunk, plus every single error on longer ones */
static int do_bchx(size_t len, int maxe)
{
	uint8_t buf[BCH_MAX_CHUNK_SIZE], e[8];
	unsigned i, v = 1;
	int t;
	for (i = 0; i < 8191; i++) { apow[i] = v; v = rmul(v, 2); }
	for (t = 1; t <= 4; t++) {
		const struct bch_def *d = defs[t - 1];
		int nb = len * 8 + d->degree, a, b, c, pos[4];
		for (i = 0; i < len; i++) buf[i] = rnd();
		bch_generate(d, buf, len, e);
		for (a = 0; a < nb; a++) {
			pos[0] = a;
			if (flip_run(t, buf, len, e, pos, 1)) return 1;
			if (t >= 2 && maxe >= 2) for (b = 0; b < a; b++) {
				pos[1] = b;
				if (flip_run(t, buf, len, e, pos, 2)) return 1;
				if (t >= 3 && maxe >= 3) for (c = 0; c < b; c++) { pos[2] = c; if (flip_run(t, buf, len, e, pos, 3)) return 1; 
					if (t >= 4 && maxe >= 4) { int f; for (f = 0; f < c; f++) { pos[3] = f; if (flip_run(t, buf, len, e, pos, 4)) return 1; } } }
			}
		}
	}
	return 0;
}

int main(int argc, char **argv)
{
	const char *m = argv[1];
	int r;
	t_end = now() + atof(argv[2]);
	rs = 88172645463325252ull ^ (strtoull(argv[3], 0, 0) * 0x9e3779b97f4a7c15ull);
	r = !strcmp(m, "crc") ? do_crc() : !strcmp(m, "ham") ? do_ham() : !strcmp(m, "gf") ? do_gf() : !strcmp(m, "bch") ? do_bch(0) :
	    !strcmp(m, "bchrepair") ? do_bch(1) : !strcmp(m, "bchx") ? do_bchx(atoi(argv[4]), atoi(argv[5])) : 2;
	printf("%s: %lu evaluations, %s\n", m, evals, r ? "failing input above" : "nothing found");
	return r;
}
