From 6e8874ee942efb2cdb5aa20a79092d95b00dbb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 01/12] fix: don't truncate metadata slot numbers to 8 bits

hdr_user_offset() took the slot number as a uint8_t. With pages large
enough for more than 256 metadata slots, slots alias each other and the
metadata of one page overwrites that of another.
---
 dhara/journal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..163a507 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -86,7 +86,7 @@ static inline void hdr_clear_user(uint8_t *buf, uint8_t log2_page_size)
 }
 
 /* Obtain pointers to user data */
-static inline size_t hdr_user_offset(uint8_t which)
+static inline size_t hdr_user_offset(size_t which)
 {
 	return DHARA_HEADER_SIZE + DHARA_COOKIE_SIZE +
 		which * DHARA_META_SIZE;
-- 
2.43.0


From 82126026e81ba52ba1c512548c92235d6e258707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 02/12] fix: resume from the last checkpoint group itself

With log2_ppc == 1, next_upage() of the last group's first page is in the
next group, which might be in the next block. Unless that block had been
erased, it was skipped entirely, although it might hold live data, and
the checkpoints written behind it were not found by the next resume.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 163a507..f481aec 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From 747416fdf9fc3a58bdd4edf8f601491ecdfff9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 03/12] fix: dump metadata only if it belongs to the root's
 group

After a resume, the head can be in the middle of a group that contains no
part of the journal. Dumping the (empty) buffer if the next program then
fails redirects metadata reads for the root's group to the dump page, and
the whole map is lost.
---
 dhara/journal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index f481aec..da530bb 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -742,7 +742,7 @@ static int recover_from(struct dhara_journal *j,
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
 
 	/* Are we holding buffered metadata? Dump it first. */
-	if (!is_aligned(old_head, j->log2_ppc) &&
+	if (align_eq(old_head, j->root, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From 0fa5d06182fb4ed4d925c22df6c3b8f78e726614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 04/12] fix: report failure if a checkpoint can't be programmed

If recover_from() finds that no recovery is required it returns 0, and
push_meta() passed that on, although the page it was called for is gone.
This happens with log2_ppc == 1, in the first group of a block.
---
 dhara/journal.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index da530bb..6124d90 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -793,17 +793,20 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0) {
+		/* Even if there's nothing to recover, the page we've just
+		 * written is gone: the caller has to try again.
+		 */
+		if (!recover_from(j, my_err, err))
+			dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
+	}
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
-- 
2.43.0


From 8f337967501724accb88f99676f39e2da40bc94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 05/12] fix: don't try to recover an empty journal

If a program failed in the middle of a block while the journal was empty,
recovery started with recover_root set to DHARA_PAGE_NONE, and pages
outside of the chip were read.
---
 dhara/journal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index 6124d90..eedd151 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -737,6 +737,15 @@ static int recover_from(struct dhara_journal *j,
 		return 0;
 	}
 
+	/* Is the journal empty? There's nothing to recover, but the block
+	 * might hold the last synced state, so it can't be marked bad
+	 * yet. We'll find out that it's bad when we next erase it.
+	 */
+	if (j->root == DHARA_PAGE_NONE) {
+		j->tail = j->head;
+		return 0;
+	}
+
 	j->recover_root = j->root;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
-- 
2.43.0


From bd6bdb3320c3951d27f52f9ea28765b8764414ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 06/12] fix: count bad blocks only when they're skipped

If the journal was full, every attempt to write counted the same bad
block again, and the capacity shrank accordingly.
---
 dhara/journal.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index eedd151..928506e 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -593,6 +593,7 @@ void dhara_journal_clear(struct dhara_journal *j)
 	hdr_clear_user(j->page_buf, j->nand->log2_page_size);
 }
 
+/* Move the head from a bad block to the start of the next one. */
 static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 {
 	const dhara_block_t next = next_block(j->nand,
@@ -604,6 +605,7 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	j->bb_current++;
 	j->head = next << j->nand->log2_ppb;
 	if (!j->head)
 		roll_stats(j);
@@ -636,7 +638,6 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-		j->bb_current++;
 		if (skip_block(j, err) < 0)
 			return -1;
 	}
@@ -697,7 +698,6 @@ static int dump_meta(struct dhara_journal *j, dhara_error_t *err)
 			return -1;
 		}
 
-		j->bb_current++;
 		dhara_nand_mark_bad(j->nand, j->head >> j->nand->log2_ppb);
 
 		if (skip_block(j, err) < 0)
@@ -720,7 +720,6 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	/* Advance to the next free page */
-	j->bb_current++;
 	if (skip_block(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From 1a7f40ada3f82ab8f7e871a895274ddd9a079ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 07/12] fix: check for a full journal after skipping bad blocks

If a block holds a single user page, writing it moves the head to the
next block. If a bad block had been skipped before, that could be the
tail's block, and the full journal looked like an empty one.
---
 dhara/journal.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 928506e..c9a31b4 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -616,24 +616,25 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 /* Make sure the head pointer is on a ready-to-program page. */
 static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 {
-	const dhara_page_t next = next_upage(j, j->head);
 	int i;
 
-	/* We can't write if doing so would cause the head pointer to
-	 * roll onto the same block as the last-synced tail.
-	 */
-	if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
-	    !align_eq(next, j->head, j->nand->log2_ppb)) {
-		dhara_set_error(err, DHARA_E_JOURNAL_FULL);
-		return -1;
-	}
-
-	j->flags |= DHARA_JOURNAL_F_DIRTY;
-	if (!is_aligned(j->head, j->nand->log2_ppb))
-		return 0;
-
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
 		const dhara_block_t blk = j->head >> j->nand->log2_ppb;
+		const dhara_page_t next = next_upage(j, j->head);
+
+		/* We can't write if doing so would cause the head
+		 * pointer to roll onto the same block as the
+		 * last-synced tail.
+		 */
+		if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
+		    !align_eq(next, j->head, j->nand->log2_ppb)) {
+			dhara_set_error(err, DHARA_E_JOURNAL_FULL);
+			return -1;
+		}
+
+		j->flags |= DHARA_JOURNAL_F_DIRTY;
+		if (!is_aligned(j->head, j->nand->log2_ppb))
+			return 0;
 
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
-- 
2.43.0


From 2c915964f333ce178bd54d16163d1b5f65b7bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 08/12] fix: peek at a journal that contains only skipped
 blocks

If the tail reached the head by skipping bad blocks, the journal is
empty, but the head was returned as if it were a page in the queue.
---
 dhara/journal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index c9a31b4..5b54ffd 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -543,8 +543,10 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			    !dhara_nand_is_bad(j->nand, blk)) {
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
+				if (j->tail == j->head) {
 					j->root = DHARA_PAGE_NONE;
+					return DHARA_PAGE_NONE;
+				}
 
 				return j->tail;
 			}
-- 
2.43.0


From 50b831a0933cce576a424cc1af130058b80b7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 09/12] fix: move the tail out of blocks that have been
 recovered

If the tail was in the block which failed, garbage collection went on
reading metadata there. If the block had failed on a checkpoint page,
that page might be unreadable, and no garbage collection was possible
any more.
---
 dhara/journal.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 5b54ffd..92ad85f 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -531,11 +531,17 @@ int dhara_journal_read_meta(struct dhara_journal *j, dhara_page_t p,
 
 dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 {
+	dhara_block_t blk = j->tail >> j->nand->log2_ppb;
+
 	if (j->head == j->tail)
 		return DHARA_PAGE_NONE;
 
-	if (is_aligned(j->tail, j->nand->log2_ppb)) {
-		dhara_block_t blk = j->tail >> j->nand->log2_ppb;
+	/* A block is marked bad only when everything in it has been
+	 * recovered, so the tail doesn't need to stay there.
+	 */
+	if (is_aligned(j->tail, j->nand->log2_ppb) ||
+	    (!align_eq(j->tail, j->head, j->nand->log2_ppb) &&
+	     dhara_nand_is_bad(j->nand, blk))) {
 		int i;
 
 		for (i = 0; i < DHARA_MAX_RETRIES; i++) {
-- 
2.43.0


From 276e18d2e331c3e06fe4ccc60f51d6c3f4a806f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 10/12] fix: find the source sector again after garbage
 collection

dhara_map_copy_sector() looked up the source page before garbage
collection and recovery, which might move it, and reuse its block.
---
 dhara/map.c | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..255ec99 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -319,14 +319,11 @@ static int auto_gc(struct dhara_map *m, dhara_error_t *err)
 	return 0;
 }
 
-static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
-			 uint8_t *meta, dhara_error_t *err)
+static int prepare_meta(struct dhara_map *m, dhara_sector_t dst,
+			uint8_t *meta, dhara_error_t *err)
 {
 	dhara_error_t my_err;
 
-	if (auto_gc(m, err) < 0)
-		return -1;
-
 	if (trace_path(m, dst, NULL, meta, &my_err) < 0) {
 		if (my_err != DHARA_E_NOT_FOUND) {
 			dhara_set_error(err, my_err);
@@ -345,6 +342,15 @@ static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
 	return 0;
 }
 
+static int prepare_write(struct dhara_map *m, dhara_sector_t dst,
+			 uint8_t *meta, dhara_error_t *err)
+{
+	if (auto_gc(m, err) < 0)
+		return -1;
+
+	return prepare_meta(m, dst, meta, err);
+}
+
 int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 		    const uint8_t *data, dhara_error_t *err)
 {
@@ -394,18 +400,39 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 int dhara_map_copy_sector(struct dhara_map *m, dhara_sector_t src,
 			  dhara_sector_t dst, dhara_error_t *err)
 {
-	dhara_error_t my_err;
-	dhara_page_t p;
+	for (;;) {
+		uint8_t meta[DHARA_META_SIZE];
+		dhara_error_t my_err;
+		dhara_page_t p;
+		const dhara_sector_t old_count = m->count;
 
-	if (dhara_map_find(m, src, &p, &my_err) < 0) {
-		if (my_err == DHARA_E_NOT_FOUND)
-			return dhara_map_trim(m, dst, err);
+		/* Garbage collection and recovery might move the source
+		 * page, so don't look for it until they're done.
+		 */
+		if (auto_gc(m, err) < 0)
+			return -1;
 
-		dhara_set_error(err, my_err);
-		return -1;
+		if (dhara_map_find(m, src, &p, &my_err) < 0) {
+			if (my_err == DHARA_E_NOT_FOUND)
+				return dhara_map_trim(m, dst, err);
+
+			dhara_set_error(err, my_err);
+			return -1;
+		}
+
+		if (prepare_meta(m, dst, meta, err) < 0)
+			return -1;
+
+		if (!dhara_journal_copy(&m->journal, p, meta, &my_err))
+			break;
+
+		m->count = old_count;
+
+		if (try_recover(m, my_err, err) < 0)
+			return -1;
 	}
 
-	return dhara_map_copy_page(m, p, dst, err);
+	return 0;
 }
 
 static int try_delete(struct dhara_map *m, dhara_sector_t s,
-- 
2.43.0


From 5d282bce473f4ddbc5c44d9d19bda3ee0b70edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 11/12] fix: compute the map's safety margin without
 overflowing

With at least 2^28 pages per block, DHARA_MAX_RETRIES << log2_ppb
overflows (undefined behaviour), and the map reported a capacity although
the safety margin exceeds the number of pages.
---
 dhara/map.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 255ec99..bba4c8b 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -101,13 +101,14 @@ dhara_sector_t dhara_map_capacity(const struct dhara_map *m)
 {
 	const dhara_sector_t cap = dhara_journal_capacity(&m->journal);
 	const dhara_sector_t reserve = cap / (m->gc_ratio + 1);
-	const dhara_sector_t safety_margin =
-		DHARA_MAX_RETRIES << m->journal.nand->log2_ppb;
+	const dhara_sector_t usable = cap - reserve;
+	const int log2_ppb = m->journal.nand->log2_ppb;
 
-	if (reserve + safety_margin >= cap)
+	/* Keep a safety margin of DHARA_MAX_RETRIES blocks */
+	if ((usable >> log2_ppb) < DHARA_MAX_RETRIES)
 		return 0;
 
-	return cap - reserve - safety_margin;
+	return usable - ((dhara_sector_t)DHARA_MAX_RETRIES << log2_ppb);
 }
 
 /* Trace the path from the root to the given sector, emitting
-- 
2.43.0


From 25c75353eb3ee60244a513bffa9de90c02cbea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 12/12] fix: report no journal capacity when every block has
 been skipped

When all blocks of a pass were bad, the number of good blocks, and with it
the capacity, wrapped around to almost 2^32.
---
 dhara/journal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 92ad85f..fa5cb48 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -470,7 +470,8 @@ dhara_page_t dhara_journal_capacity(const struct dhara_journal *j)
 {
 	const dhara_block_t max_bad = j->bb_last > j->bb_current ?
 		j->bb_last : j->bb_current;
-	const dhara_block_t good_blocks = j->nand->num_blocks - max_bad - 1;
+	const dhara_block_t good_blocks = j->nand->num_blocks > max_bad ?
+		j->nand->num_blocks - max_bad - 1 : 0;
 	const int log2_cpb = j->nand->log2_ppb - j->log2_ppc;
 	const dhara_page_t good_cps = good_blocks << log2_cpb;
 
-- 
2.43.0

