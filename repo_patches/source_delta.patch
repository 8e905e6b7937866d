From b45d093a9260d4b7deefc5dd3901700461fbbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/57] fix: do not lose index entries inserted while
 housekeeping takes its snapshot

IDX_Insert() opens index.appendix and then writes to it.  If housekeeping
moves the file aside between the two and has read it before the write,
the entry ended in a file about to be removed.  Check after the write that
the file written to is still the appendix, and insert again if not.
---
 index.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..bf17482 100644
--- a/index.c
+++ b/index.c
@@ -136,6 +136,7 @@
 #include <stdlib.h>
 
 #include <sys/endian.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -226,8 +227,9 @@ IDX_Insert(const struct aardwarc *aa, const char *key, uint32_t flags,
 uint32_t silo, uint64_t offset, const char *cont)
 {
 	uint8_t rec[32];
-	int fd, i;
+	int fd, i, again;
 	struct vsb *vsb;
+	struct stat st1, st2;
 
 	assert(aa->id_size >= 16);
 
@@ -240,11 +242,27 @@ uint32_t silo, uint64_t offset, const char *cont)
 		idx_key_bin(rec + 28, cont, 4);
 
 	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
-	i = write(fd, rec, sizeof rec);
-	assert(i == (int)sizeof rec);
-	assert(close(fd) == 0);
+	do {
+		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		i = write(fd, rec, sizeof rec);
+		assert(i == (int)sizeof rec);
+
+		/*
+		 * If housekeeping snapshotted the appendix after we opened
+		 * it, it may already have read all it is going to read, so
+		 * insert the record (again) in the current appendix.
+		 */
+		AZ(fstat(fd, &st1));
+		if (stat(VSB_data(vsb), &st2)) {
+			assert(errno == ENOENT);
+			again = 1;
+		} else {
+			again = st1.st_dev != st2.st_dev ||
+			    st1.st_ino != st2.st_ino;
+		}
+		assert(close(fd) == 0);
+	} while (again);
 	VSB_delete(vsb);
 }
 
-- 
2.43.0


From 9729d9be3f051b9ed6cd124b8ecb39972117ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 02/57] fix: look entries up in the order housekeeping moves
 them

Reading index.sorted before index.appendix and index.housekeep misses the
entries a concurrent housekeeping moves to index.sorted in between.
---
 index.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index bf17482..637cc9f 100644
--- a/index.c
+++ b/index.c
@@ -406,15 +406,19 @@ bucket_seek(const void *rec, FILE *f)
 /*
  * Since the index is small enough that we have a risk of collisions,
  * the only way to lookup is to iterate all possible matches.
+ *
+ * Housekeeping moves entries from the appendix through the housekeeping
+ * snapshot to the sorted file, so we must look at the files in that order
+ * to not miss entries moved along while we look.
  */
 
 static const struct idxfiles {
 	const char	*suff;
 	int		sorted;
 } idxfiles[] = {
-	{ SUFF_SORTED,		1 },
 	{ SUFF_APPENDIX,	0 },
 	{ SUFF_HOUSEKEEP,	0 },
+	{ SUFF_SORTED,		1 },
 	{ NULL, 0}
 };
 
@@ -451,9 +455,9 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
-		VSB_delete(vsb);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
-- 
2.43.0


From 4fe91155533fa9e8bcd05658713cb84c01f4ecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 03/57] fix: seek to the right record in index.sorted

bucket_seek() ignored that the records start after the bucket table and
that the offset can take the position below zero: The first records could
be missed because bucket numbers were compared as if they were records,
and looking for an ID which is not there could abort on the seek.
A short key which starts in a bucket without records missed those in the
next bucket.
---
 index.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/index.c b/index.c
index 637cc9f..3b98665 100644
--- a/index.c
+++ b/index.c
@@ -279,6 +279,9 @@ struct bucket {
 	int64_t			*buckets;
 };
 
+/* Offset in buckets without records, more than any real offset */
+#define BUCKET_EMPTY		(1LL << 31)
+
 static void
 bucket_skip(FILE *f)
 {
@@ -321,7 +324,7 @@ bucket_new(off_t nrec_estimate)
 
 	bp->buckets = calloc(sizeof *bp->buckets, bp->nbucket);
 	for (u = 0; u < bp->nbucket; u++)
-		bp->buckets[u] = 1ULL << 31;
+		bp->buckets[u] = BUCKET_EMPTY;
 	AN(bp->buckets);
 
 	return (bp);
@@ -375,7 +378,7 @@ bucket_seek(const void *rec, FILE *f)
 	long bucket;
 	uint64_t id;
 	unsigned nbucket;
-	unsigned nrec;
+	uint64_t nrec;
 	int64_t off;
 
 	AN(rec);
@@ -389,18 +392,23 @@ bucket_seek(const void *rec, FILE *f)
 
 	frac = be64dec(rec);
 	bucket = (long)(frac >> (64 - nbucket));
+	off = 0;
 	if (bucket > 0) {
 		frac >>= 40;	// top 24 bits
 		frac *= nrec;	// full 64 bit fraction
 		frac >>= 24;	// predicted record number
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
-		assert(1 == fread(buf, sizeof buf, 1, f));
-		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
-	} else {
-		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
+		do {
+			// If the bucket is empty, the next one will do.
+			assert(1 == fread(buf, sizeof buf, 1, f));
+			off = (int64_t)be64dec(buf);
+		} while (off == BUCKET_EMPTY && ++bucket < 1L << nbucket);
+		off += (int64_t)frac;
+		if (off < 0)
+			off = 0;
 	}
+	// Records start after the buckets
+	AZ(fseeko(f, (1L << (nbucket + 3)) + off * 32, SEEK_SET));
 }
 
 /*
-- 
2.43.0


From edc300c30d4cc8b516a518ff5b7c5a3c75cbb116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 04/57] fix: create the silo before the index entries which
 point to it

An interrupted or concurrent store left index entries for a silo which did
not exist (yet), and every operation which followed them aborted.
---
 wsilo.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..3d48822 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -461,20 +461,25 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 
 /* Commit a silo ------------------------------------------------------*/
 
-void
-Wsilo_Install(struct wsilo **slp)
+static void
+wsilo_link(const struct wsilo *sl)
 {
-	struct wsilo *sl;
-
-	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
+
+	/* Only now that the silo exists can the index point at it */
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
+}
+
+static void
+wsilo_done(struct wsilo *sl)
+{
+
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
@@ -482,6 +487,16 @@ Wsilo_Install(struct wsilo **slp)
 	wsilo_delete(sl);
 }
 
+void
+Wsilo_Install(struct wsilo **slp)
+{
+	struct wsilo *sl;
+
+	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
+	wsilo_link(sl);
+	wsilo_done(sl);
+}
+
 void
 Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 {
@@ -561,8 +576,9 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
+	wsilo_link(sl);
 	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
-	Wsilo_Install(&sl);
+	wsilo_done(sl);
 }
 
 void
-- 
2.43.0


From 0e2a0ea3edaeae21c2c9f5c3efeec5899a1f9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 05/57] fix: audit segmented objects in any segment order, and
 not for ever

The loop over the pending segments was repeated when nothing was found
(for ever, if a segment is missing) and not when something was, and the
first incomplete object ended the audit of all the others.
---
 main_audit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..16df9b2 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From 26256c78d46f12ae808f192f3d2dc6735e13d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 06/57] fix: audit all silos, also after a gap in the silo
 numbers

audit stopped at the first silo number which is not in use, which is the
one a killed or concurrent store holds, or which mksilo left out.
---
 main_audit.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 16df9b2..fa27da9 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -375,6 +375,16 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *fn, ssize_t silono)
+{
+	struct aardwarc *aa;
+
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
+	(void)fn;
+	return (audit_silo(aa, NULL, silono));
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -392,7 +402,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -419,9 +429,7 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-- 
2.43.0


From 08bdc7eb81347036368a57b20049421beb07b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 07/57] fix: do not exit 0 when output could not be written

get, filter and all operations which write to stdout ended with status 0
although not all of their output had been written (full disk), and get
with an -o file it could not open crashed.
---
 main.c        |  7 ++++++-
 main_filter.c |  6 ++++++
 main_get.c    | 12 ++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 005be74..91fa467 100644
--- a/main.c
+++ b/main.c
@@ -196,5 +196,10 @@ main(int argc, char **argv)
 	VSB_delete(vsb2);
 	VSB_delete(vsb3);
 
-	return (call_main(a0, aa, argc, argv));
+	ch = call_main(a0, aa, argc, argv);
+	if ((fflush(stdout) || ferror(stdout)) && ch == 0) {
+		fprintf(stderr, "Cannot write stdout: %s\n", strerror(errno));
+		ch = 1;
+	}
+	return (ch);
 }
diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..2ef0677 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -296,5 +296,11 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		FREE_OBJ(c);
 	}
 	FREE_OBJ(fp);
+	ch = ferror(fo);
+	if (ofile != NULL && (fclose(fo) || ch)) {
+		fprintf(stderr,
+		    "Cannot write %s: %s\n", ofile, strerror(errno));
+		exit(1);
+	}
 	return (0);
 }
diff --git a/main_get.c b/main_get.c
index 306a2b5..1620a6d 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -135,6 +136,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr,
+			    "Cannot open %s: %s\n", of, strerror(errno));
+			exit(1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
@@ -185,6 +191,12 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	if (of != NULL && fclose(gp->dst)) {
+		fprintf(stderr,
+		    "Cannot write %s: %s\n", of, strerror(errno));
+		exit(1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From 694ee312013997d44993cad3e67c9ee963bf2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 08/57] fix: do not take a read error for the end of the input

store committed and acknowledged what had been read before the error,
filter reported on the IDs before it only.
---
 aardwarc.h    | 1 +
 main_filter.c | 4 ++++
 main_store.c  | 5 +++++
 segjob.c      | 7 +++++++
 4 files changed, 17 insertions(+)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..59dbbb7 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -193,6 +193,7 @@ struct segjob *SegJob_New(struct aardwarc *, const struct header *,
     const char *);
 void SegJob_Feed(struct segjob *, const void *ptr, ssize_t len);
 char *SegJob_Commit(struct segjob *);
+void SegJob_Abandon(struct segjob *);
 
 /* silo.c */
 struct vsb *Silo_Filename(const struct aardwarc *, unsigned number, int hold);
diff --git a/main_filter.c b/main_filter.c
index 2ef0677..c008ca0 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -180,6 +180,10 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
 			retval = 1;
 	}
+	if (ferror(fi)) {
+		fprintf(stderr, "Read error: %s\n", strerror(errno));
+		exit(1);
+	}
 	return (retval);
 }
 
diff --git a/main_store.c b/main_store.c
index 79236b7..e91783f 100644
--- a/main_store.c
+++ b/main_store.c
@@ -267,6 +267,11 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (rlen > 0)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		SegJob_Abandon(sj);
+		exit(1);
+	}
 
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
diff --git a/segjob.c b/segjob.c
index 731f373..bb2337f 100644
--- a/segjob.c
+++ b/segjob.c
@@ -182,6 +182,13 @@ segjob_finishseg(struct segjob *sj)
 	REPLACE(dig, NULL);
 }
 
+void
+SegJob_Abandon(struct segjob *sj)
+{
+
+	segjob_destroy(sj);
+}
+
 struct segjob *
 SegJob_New(struct aardwarc *aa, const struct header *hdr, const char *ident)
 {
-- 
2.43.0


From 1107a40a261cba0ff897837e16ef83cb4e41051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 09/57] fix: commit the first segment of a segmented object
 last

Readers find a segmented object by its first segment and follow the chain
from there.  A store killed halfway left a first segment without successor
in the index, which would be found instead of the complete object when it
is stored again, if that is not cut in exactly the same way.
---
 segjob.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/segjob.c b/segjob.c
index bb2337f..6ed66ad 100644
--- a/segjob.c
+++ b/segjob.c
@@ -67,7 +67,7 @@ struct segjob {
 	const char		*ident;
 
 	int			nseg;
-	VTAILQ_HEAD(,segment)	segments;
+	VTAILQ_HEAD(segmenthead,segment)	segments;
 	struct segment		*cur_seg;
 	struct SHA256Context	sha256_payload[1];
 	struct SHA256Context	sha256_segment[1];
@@ -373,7 +373,11 @@ SegJob_Commit(struct segjob *sj)
 		return (id);
 	}
 
-	VTAILQ_FOREACH(sg, &sj->segments, list) {
+	/*
+	 * The object exists once its first segment does, so that goes last:
+	 * if we die on the way, nothing points at the missing segments.
+	 */
+	VTAILQ_FOREACH_REVERSE(sg, &sj->segments, segmenthead, list) {
 		if (sg->segno == 1)
 			Header_Set(sg->hdr, "WARC-Segment-Number", "1");
 		else
-- 
2.43.0


From b1328b672f38bc2701437164a694dc260329b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 10/57] fix: find objects which have the same content as a
 segment or warcinfo

An object whose ID is also the ID of a continuation segment or of a
warcinfo record was stored and acknowledged but could not be retrieved:
the search ended at the first record with that ID.  Likewise an object with
several identical segments was taken for an inconsistent index, and an
object identical to a segment made retrieval of the segmented object abort.
Keep looking instead.
---
 getjob.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..6ea5c75 100644
--- a/getjob.c
+++ b/getjob.c
@@ -92,7 +92,7 @@ getjob_iter(void *priv, const char *key,
 		gj->err = "ID is warcinfo segment";
 		Header_Destroy(&hdr);
 		Rsilo_Close(&rs);
-		return (-1);
+		return (0);
 	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
@@ -105,11 +105,16 @@ getjob_iter(void *priv, const char *key,
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* An object with the same content as a segment */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -134,7 +139,7 @@ getjob_iter(void *priv, const char *key,
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From db95d610c7e23b81e49af00301be8f9b4e7c1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 11/57] fix: filter IDs in any case and of any length

Upper case IDs were never found, nor were any in archives with IDs shorter
than the 24 digits in the index, and with -s the first of two IDs with the
same 24 digits could hide the other.
---
 main_filter.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index c008ca0..5903a07 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -111,6 +111,7 @@ filter_iter(void *priv, const char *key,
 {
 	struct cand *c;
 	struct filt *fp;
+	size_t len;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
@@ -118,13 +119,16 @@ filter_iter(void *priv, const char *key,
 
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
-	if (next_cand == NULL || strcmp(key, fp->last) < 0)
+	if (next_cand == NULL || strcmp(key, fp->last) <= 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
-	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
+	len = strlen(key);
+	if (len > fp->aa->id_size)
+		len = fp->aa->id_size;
+	while (next_cand != NULL && strncasecmp(next_cand->id, key, len) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
 	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
+	    !strncasecmp(key, next_cand->id, len)) {
 		c = next_cand;
 		next_cand = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
@@ -177,7 +181,7 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		ncand++;
 		VTAILQ_INSERT_TAIL(&candidates, c1, list);
 		VTAILQ_INSERT_TAIL(&sorted, c1, sortlist);
-		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
+		if (c2 != NULL && strcasecmp(c2->id, c1->id) > 0)
 			retval = 1;
 	}
 	if (ferror(fi)) {
@@ -194,7 +198,7 @@ cand_cmp(const void *p1, const void *p2)
 
 	CAST_OBJ_NOTNULL(c1, *(const struct cand * const*)p1, CAND_MAGIC);
 	CAST_OBJ_NOTNULL(c2, *(const struct cand * const*)p2, CAND_MAGIC);
-	return (strcmp(c1->id, c2->id));
+	return (strcasecmp(c1->id, c2->id));
 }
 
 int v_matchproto_(main_f)
-- 
2.43.0


From 5fdeb76b4c2723ecd61fd7ba292e2ca43ccd931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 12/57] fix: reindex archives which hold a segmented object
 twice

A segment was offered as successor of two different predecessors and
reindex aborted.
---
 main_reindex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..fbc77fb 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -114,7 +114,8 @@ try_seg(const struct aardwarc *aa, struct seg *seg)
 	struct seg *seg2;
 
 	seg2 = VTAILQ_NEXT(seg, list);
-	if (seg2 != NULL && !seg2->done && seg2->segno + 1 == seg->segno &&
+	if (seg2 != NULL && !seg2->done && !seg->used &&
+	    seg2->segno + 1 == seg->segno &&
 	    !strncmp(seg2->parent, seg->parent, aa->id_size))
 		emit_seg(aa, seg2, seg);
 }
-- 
2.43.0


From a55c2d5a6642e96d4a170fb1c7b9f5e67e40faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 13/57] fix: filter does not report segments and warcinfo as
 objects

Stow relies on filter to tell which files need not be sent, and a file with
the same content as a continuation segment or a warcinfo record was never
stored, though it cannot be retrieved.
---
 main_filter.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index 5903a07..7797c4b 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -114,9 +114,14 @@ filter_iter(void *priv, const char *key,
 	size_t len;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
-	(void)flag;
 	(void)cont;
 
+	/* These are not objects anybody can get */
+	if (flag & IDX_F_WARCINFO)
+		return (0);
+	if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG))
+		return (0);
+
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
 	if (next_cand == NULL || strcmp(key, fp->last) <= 0)
-- 
2.43.0


From 5fdfc58c2a8f95e8034c84f547b88aae60bfa118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 14/57] fix: make room for the NUL after a full buffer in
 rebuild

---
 main_rebuild.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..904bec1 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -238,7 +238,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	z_stream	zs[1];
 	int		ps = getpagesize();
 	unsigned char	ibuf[ps * 16];
-	unsigned char	obuf[ps * 16];
+	unsigned char	obuf[ps * 16 + 1];
 	FILE		*fi;
 	size_t		rz;
 	ssize_t		oz;
@@ -266,7 +266,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	do {
 		zs->next_out = (void*)obuf;
-		zs->avail_out = sizeof obuf;
+		zs->avail_out = sizeof obuf - 1;
 		if (!zs->avail_in) {
 			rz = fread(ibuf, 1, sizeof ibuf, fi);
 			if (!rz)
@@ -275,7 +275,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 			zs->avail_in = rz;
 		}
 		i = inflate(zs, 0);
-		oz = sizeof obuf - zs->avail_out;
+		oz = (sizeof obuf - 1) - zs->avail_out;
 		obuf[oz] = '\0';
 		rebuild_process(rb, obuf, oz);
 		if (i == Z_STREAM_END) {
-- 
2.43.0


From 8626ed27b97a3e69a808ed48b222b3d8c1388246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 15/57] fix: accept the URI form of the forced ID in store -i

It was found valid, and then store aborted on it.
---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index e91783f..330e022 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From 3d7d49fd1f2022828cb8581f9e89bd4dd6602b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 16/57] fix: report silos which cannot be opened

audit and reindex stopped at a silo they could not open and ended with
status 0, as did rebuild.
---
 main_audit.c   | 16 ++++++++++------
 main_rebuild.c |  2 +-
 silo.c         |  2 +-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index fa27da9..ca634e7 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -317,8 +317,13 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 
 	rs = Rsilo_Open(aa, fn, nsilo, 0);
-	if (rs == NULL)
+	if (rs == NULL) {
+		if (fn != NULL)
+			printf("ERROR: Cannot open silo %s\n", fn);
+		else
+			printf("ERROR: Cannot open silo #%d\n", nsilo);
 		return (-1);
+	}
 	printf("Audit silo %s #%d\n", fn, nsilo);
 
 	vsberr = VSB_new_auto();
@@ -402,7 +407,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch;
+	int ch, retval = 0;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -429,11 +434,10 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		(void)Silo_Iter(aa, audit_silo_iter, aa);
+		retval |= Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
-			if (audit_silo(aa, *argv++, -1))
-				break;
+			retval |= audit_silo(aa, *argv++, -1);
 	}
 
 	err = VSB_new_auto();
@@ -446,5 +450,5 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 	VSB_destroy(&err);
 
-	return (0);
+	return (retval);
 }
diff --git a/main_rebuild.c b/main_rebuild.c
index 904bec1..42d7795 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -249,7 +249,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	if (fi == NULL) {
 		fprintf(stderr,
 		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
-		return (0);
+		return (1);
 	}
 	fprintf(stderr, "SILO NO %zd FN %s\n", silono, (const char *)fn);
 	VSB_clear(rb->vsb);
diff --git a/silo.c b/silo.c
index a99e7b1..27b3a28 100644
--- a/silo.c
+++ b/silo.c
@@ -109,5 +109,5 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 			retval = func(priv, VSB_data(vsb), u);
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From 2ca6b002921a5647f25da8ff4dfc438a11a51432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 17/57] fix: do not free the sort space twice if housekeeping
 fails

---
 index.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index.c b/index.c
index 3b98665..8649c3a 100644
--- a/index.c
+++ b/index.c
@@ -619,7 +619,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
-- 
2.43.0


From 128efbca8c4d9b39a4c2d02589f8b4e8d85db1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 18/57] fix: do not leave a partial record in a silo when the
 disk is full

The short write was noticed and ended the store, but the part which was
written stayed at the end of the silo, where reindex, audit and rebuild
cannot get past it.
---
 wsilo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index 3d48822..2ac033f 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -430,6 +430,10 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 
 		before = lseek(fds, 0, SEEK_END);
 		s = writev(fds, iov, 2);
+		if (s >= 0 && (size_t)s != wlen) {
+			/* No partial records in silos (disk full?) */
+			AZ(ftruncate(fds, before));
+		}
 		after = lseek(fds, 0, SEEK_END);
 		assert(s >= 0);
 		assert((size_t)s == wlen);
-- 
2.43.0


From ca13b309eda1bcd999d687ab3f0dfea4ff46c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 19/57] fix: get -z and cgi must not call a body they could not
 read all of a success

---
 rsilo.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsilo.c b/rsilo.c
index 0f06b93..d7da7dd 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From 5e0491c39dc9cd9842334ed244f3f54da8d9190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 20/57] fix: an index file which cannot be read is not an index
 file without matches

---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 8649c3a..cd58aa5 100644
--- a/index.c
+++ b/index.c
@@ -463,6 +463,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		assert(f != NULL || errno == ENOENT);
 		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
@@ -470,8 +471,10 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 			bucket_seek(key_p, f);
 		do {
 			i = fread(rec, 1, sizeof rec, f);
-			if (i == 0)
+			if (i == 0) {
+				AZ(ferror(f));
 				break;
+			}
 			assert(i == (int)sizeof rec);
 			i = 0;
 
-- 
2.43.0


From 2d7a53ae188834d54820072613861f08088b250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 21/57] fix: housekeeping must not replace a sorted index which
 it cannot read

---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index cd58aa5..ce6cb35 100644
--- a/index.c
+++ b/index.c
@@ -525,6 +525,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
@@ -547,8 +548,10 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 		bucket_skip(f1);
 		while (1) {
 			sz = fread(rec, 32, 1, f1);
-			if (sz == 0)
+			if (sz == 0) {
+				AZ(ferror(f1));
 				break;
+			}
 			assert(memcmp(rec, recl, 32) >= 0);
 			memcpy(recl, rec, 32);
 			assert(sz == 1);
-- 
2.43.0


From 01448f34947bdf0119223ee728b9e6e752c5cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 22/57] fix: housekeeping must notice when the new sorted index
 cannot be written

---
 index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index ce6cb35..d763db2 100644
--- a/index.c
+++ b/index.c
@@ -361,13 +361,13 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
+	AZ(fflush(f));
 	AZ(fseeko(f, 0, SEEK_SET));
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
 		assert(1 == fwrite(buf, 8, 1, f));
 	}
-	fflush(f);
+	AZ(fflush(f));
 }
 
 static void
-- 
2.43.0


From be60981038ab44b464e9dc7b7ee52ebfc7c5f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 23/57] fix: do not take hold of a silo which was installed
 since we looked

---
 wsilo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index 2ac033f..006141d 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -167,6 +167,15 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 		exit(2);
 	}
 
+	if (!stat(VSB_data(vsb), &st)) {
+		/* Somebody else just installed it */
+		AZ(unlink(VSB_data(vsb2)));
+		AZ(close(fd));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
+		return (NULL);
+	}
+
 	ALLOC_OBJ(sl, WSILO_MAGIC);
 	if (sl == NULL)
 		return (NULL);
-- 
2.43.0


From 209c60419a376365834140d29def3bf502004e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 24/57] fix: store must give up, not loop for ever, when it
 cannot make a directory

---
 wsilo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 006141d..83fc93c 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -99,7 +99,7 @@ silo_mkparentdir(const char *path)
 		if (i < 0)
 			return (i);
 		i = mkdir(p, 0755);
-		if (i < 0)
+		if (i < 0 && errno != EEXIST)
 			return (i);
 		i = stat(p, &st);
 	}
@@ -138,7 +138,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	if (j) {
 		fprintf(stderr, "MKDIR %d %d %s\n",
 		    j, errno, strerror(errno));
-		return (NULL);
+		exit(2);
 	}
 
 	if (!stat(VSB_data(vsb2), &st)) {
-- 
2.43.0


From 59f18b47c9b57879c4680cc7b5664d82717a59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 25/57] fix: visit all silos, also those behind a directory
 which is missing

Silo_Iter stopped at the first directory of 100 silos which does not
exist, so after 'mksilo 1000' audit and reindex passed over all silos
from there on in silence.
---
 silo.c | 63 ++++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/silo.c b/silo.c
index 27b3a28..7e8ed05 100644
--- a/silo.c
+++ b/silo.c
@@ -82,32 +82,61 @@ Silo_Filename(const struct aardwarc *aa, unsigned number, int hold)
 	return (vsb);
 }
 
-int
-Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
+/*
+ * Call func for the silos which exist, in ascending order, out of those
+ * in the directory tree lvl, whose numbers are num and 2 * depth digits.
+ */
+static int
+silo_iter(const struct aardwarc *aa, int lvl, int depth, uint64_t num,
+    byte_iter_f *func, void *priv)
 {
 	struct vsb *vsb;
-	uint32_t u;
+	unsigned u;
 	struct stat st;
 	int i, retval = 0;
 
-	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
-	AN(func);
+	if (num > UINT32_MAX)
+		return (0);
 
-	for (u = 0; retval == 0; u++) {
-		vsb = VSB_new_auto();
-		AN(vsb);
-		VSB_cat(vsb, aa->silo_dirname);
-		numpart(vsb, 0, u);
-		AZ(VSB_finish(vsb));
-		i = stat(VSB_data(vsb), &st);
-		if (i && errno == ENOENT)
-			break;
-		VSB_delete(vsb);
-		vsb = Silo_Filename(aa, u, 0);
+	if (depth == 0) {
+		vsb = Silo_Filename(aa, (unsigned)num, 0);
 		i = stat(VSB_data(vsb), &st);
 		if (!i && S_ISREG(st.st_mode))
-			retval = func(priv, VSB_data(vsb), u);
+			retval = func(priv, VSB_data(vsb), (ssize_t)num);
 		VSB_delete(vsb);
+		return (retval);
 	}
+
+	vsb = VSB_new_auto();
+	AN(vsb);
+	VSB_cat(vsb, aa->silo_dirname);
+	if (depth > lvl)
+		VSB_printf(vsb, "%d/", lvl);
+	else
+		numpart(vsb, depth, (unsigned)num);
+	AZ(VSB_finish(vsb));
+	i = stat(VSB_data(vsb), &st);
+	VSB_delete(vsb);
+	if (i && errno == ENOENT)
+		return (0);
+
+	/* Numbers do not have leading zeros */
+	u = (depth > lvl && lvl > 0) ? 1 : 0;
+	for (; retval == 0 && u < 100; u++)
+		retval = silo_iter(aa, lvl, depth - 1, num * 100 + u,
+		    func, priv);
+	return (retval);
+}
+
+int
+Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
+{
+	int lvl, retval = 0;
+
+	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
+	AN(func);
+
+	for (lvl = 0; retval == 0 && lvl < 5; lvl++)
+		retval = silo_iter(aa, lvl, lvl + 1, 0, func, priv);
 	return (retval);
 }
-- 
2.43.0


From a069598a4234f4591e10cdb68d919c85699e3cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 26/57] fix: audit -i ignore-metadata-record-id also for
 segmented metadata

Metadata which were stored with a forced ID (store -i) were still
reported if they take more than one silo.
---
 main_audit.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index ca634e7..2e43512 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -152,15 +152,15 @@ audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap)
 	Rsilo_Close(&rs);
 }
 
+static void audit_check_ident(struct aardwarc *aa, struct vsb *err,
+    struct audit *ap, const char *dig);
+
 static void
 audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
     struct audit *apn)
 {
 	char buf[64];
 	char dig[SHA256_DIGEST_STRING_LENGTH];
-	char id[SHA256_DIGEST_STRING_LENGTH];
-
-	(void)aa;
 
 	bprintf(buf, "%jd", (intmax_t)ap0->sz);
 	audit_check_header(err, apn, "WARC-Segment-Total-Length", buf);
@@ -168,12 +168,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	(void)SHA256_End(ap0->sha256, dig);
 	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);
 
-	Ident_Create(aa, ap0->hdr, dig, id);
-	if (strcmp(id, Header_Get_Id(ap0->hdr))) {
-		VSB_printf(err, "ERROR: %s difference\n", "WARC-Record-ID");
-		VSB_printf(err, "\tis:\t\t%s\n", Header_Get_Id(ap0->hdr));
-		VSB_printf(err, "\tshould be:\t%s\n", id);
-	}
+	audit_check_ident(aa, err, ap0, dig);
 }
 
 static int
-- 
2.43.0


From 5f94befa265cbe473e21d8d7aaf9eafe54cc95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 27/57] fix: cgi must not send gzip to a client which refuses
 it

---
 main_cgi.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/main_cgi.c b/main_cgi.c
index 43155ac..f6bd119 100644
--- a/main_cgi.c
+++ b/main_cgi.c
@@ -59,6 +59,30 @@ get_iter(void *priv, const void *ptr, ssize_t len)
 	return (0);
 }
 
+/* "gzip;q=0" means that gzip is not acceptable */
+
+static int
+accepts_gzip(const char *p)
+{
+	size_t l;
+
+	for (; *p != '\0'; p += strcspn(p, ",")) {
+		p += strspn(p, ", \t");
+		l = strcspn(p, ",; \t");
+		if (!(l == 4 && !strncasecmp(p, "gzip", l)) &&
+		    !(l == 6 && !strncasecmp(p, "x-gzip", l)))
+			continue;
+		p += l;
+		p += strspn(p, "; \t");
+		if (strncasecmp(p, "q=", 2))
+			return (1);
+		p += 2;
+		p += strspn(p, "0.");
+		return (*p >= '1' && *p <= '9');
+	}
+	return (0);
+}
+
 int v_matchproto_(main_f)
 main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
@@ -112,8 +136,8 @@ main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 
 	p = getenv("HTTP_ACCEPT_ENCODING");
-	if (p != NULL && strstr(p, "gzip"))
-		gzip = 1;
+	if (p != NULL)
+		gzip = accepts_gzip(p);
 
 	if (*id == '/')
 		id++;
-- 
2.43.0


From 9e8d0fe7aa18284a98c8fab92739507303d9d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 28/57] fix: stevedore must not store, nor wait for ever for,
 half of a file

---
 main_stevedore.c | 82 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..d98ece5 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -28,6 +28,7 @@
  */
 
 #include <poll.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -80,6 +81,50 @@ static struct aardwarc *g_aa;
 
 static void start_filter(void);
 
+/***********************************************************************
+ * A store takes the end of its input for the end of the object, so it
+ * must not see that end unless we got all of the object.
+ */
+
+static void
+kill_jobs(void)
+{
+
+	if (store_job != NULL)
+		(void)kill(store_job->pid, SIGKILL);
+	if (meta_job != NULL)
+		(void)kill(meta_job->pid, SIGKILL);
+}
+
+static void
+sig_kill_jobs(int sig)
+{
+
+	kill_jobs();
+	(void)signal(sig, SIG_DFL);
+	(void)raise(sig);
+}
+
+static void
+set_signals(void (*func)(int))
+{
+
+	(void)signal(SIGABRT, func);
+	(void)signal(SIGHUP, func);
+	(void)signal(SIGINT, func);
+	(void)signal(SIGPIPE, func);
+	(void)signal(SIGTERM, func);
+}
+
+static void
+give_up(const char *why)
+{
+
+	fprintf(stderr, "Giving up: %s\n", why);
+	kill_jobs();
+	exit(3);
+}
+
 /**********************************************************************/
 
 static void v_matchproto_(proto_ev_func_f)
@@ -116,6 +161,7 @@ job_start(vlu_f *line, job_func *eof, ...)
 	AN(jp);
 	jp->pid = fork();
 	if (!jp->pid) {
+		set_signals(SIG_DFL);
 		va_start(ap, eof);
 		do {
 			p = va_arg(ap, const char *);
@@ -318,11 +364,15 @@ input(int fd, void *priv, int revents)
 	(void)revents;
 	i = proto_in(fd, &cmd, &size);
 	if (i == 0) {
+		if (store_job != NULL || meta_job != NULL)
+			give_up("Connection lost.");
 		proto_del_ev(&stdin_ev);
 		return;
 	}
-	if (i != 1)
+	if (i != 1) {
+		kill_jobs();
 		exit(42);
+	}
 	switch (cmd) {
 	case PROTO_MSG:
 		WRONG("We don't take messages");
@@ -336,11 +386,8 @@ input(int fd, void *priv, int revents)
 			j = 0;
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
-				if (i == 0) {
-					proto_del_ev(&stdin_ev);
-					FREE_OBJ(fp);
-					return;
-				}
+				if (i <= 0)
+					give_up("Connection lost.");
 				j += i;
 			}
 			fp->id[size] = '\n';
@@ -369,10 +416,8 @@ input(int fd, void *priv, int revents)
 					i = read(0, buf, size);
 				else
 					i = read(0, buf, sizeof buf);
-				if (i <= 0) {
-					proto_del_ev(&stdin_ev);
-					exit(3);
-				}
+				if (i <= 0)
+					give_up("Connection lost.");
 				size -= i;
 				i2 = write(store_job->fd_to, buf, i);
 				assert(i2 == i);
@@ -385,10 +430,8 @@ input(int fd, void *priv, int revents)
 			assert (size + 1UL < sizeof buf);
 			while (size > j) {
 				i = read(0, buf + j, size - j);
-				if (i == 0) {
-					proto_del_ev(&stdin_ev);
-					return;
-				}
+				if (i <= 0)
+					give_up("Connection lost.");
 				j += i;
 			}
 			buf[size] = '\0';
@@ -401,10 +444,8 @@ input(int fd, void *priv, int revents)
 					i = read(0, buf, size);
 				else
 					i = read(0, buf, sizeof buf);
-				if (i <= 0) {
-					proto_del_ev(&stdin_ev);
-					exit(3);
-				}
+				if (i <= 0)
+					give_up("Connection lost.");
 				size -= i;
 				i2 = write(meta_job->fd_to, buf, i);
 				assert(i2 == i);
@@ -424,8 +465,8 @@ input(int fd, void *priv, int revents)
 				i = read(0, buf, size);
 			else
 				i = read(0, buf, sizeof buf);
-			if (i == 0)
-				return;
+			if (i <= 0)
+				give_up("Connection lost.");
 			size -= i;
 		}
 		break;
@@ -480,6 +521,7 @@ main_stevedore(const char *a0, struct aardwarc *aa,
 		exit(0);
 	}
 
+	set_signals(sig_kill_jobs);
 	stdin_ev = proto_add_ev(0, POLLIN, input, NULL);
 	proto_dispatch_evs();
 	return(0);
-- 
2.43.0


From 0e3a49cefb364b4b5c2667166544ca835781e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 29/57] fix: a job the stevedore starts during a store must not
 keep that store from ending

---
 main_stevedore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index d98ece5..950b02f 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -174,6 +174,11 @@ job_start(vlu_f *line, job_func *eof, ...)
 		} while (p != NULL);
 		va_end(ap);
 
+		/* Nobody but the stevedore may hold up the end of their input */
+		if (store_job != NULL)
+			AZ(close(store_job->fd_to));
+		if (meta_job != NULL)
+			AZ(close(meta_job->fd_to));
 		AZ(close(fdi[1]));
 		assert(0 == dup2(fdi[0], 0));
 		AZ(close(fdo[0]));
-- 
2.43.0


From 6c5ba489cb5a427e5bff0d67b446b93c13ca42ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 30/57] fix: stevedore must not crash when metadata is the last
 thing it gets

---
 main_stevedore.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 950b02f..dba6aea 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -327,7 +327,6 @@ meta_line(void *priv, const char *line)
 
 	CAST_OBJ_NOTNULL(jp, priv, JOB_MAGIC);
 	proto_out(1, PROTO_META, line, strlen(line));
-	proto_ctl_ev(stdin_ev, 1);
 	return (0);
 }
 
-- 
2.43.0


From e2c362dbbdb04c8619d9af77c61a4f96b51823bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 31/57] fix: stevedore must not take other bytes for an ID

---
 main_stevedore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index dba6aea..6e30c36 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -394,6 +394,9 @@ input(int fd, void *priv, int revents)
 					give_up("Connection lost.");
 				j += i;
 			}
+			fp->id[size] = '\0';
+			if (strspn(fp->id, "0123456789abcdefABCDEF") != size)
+				give_up("Not an ID.");
 			fp->id[size] = '\n';
 			fp->id[size + 1L] = '\0';
 		}
-- 
2.43.0


From 9d07b1eb2a6b9eddb6d1d2357bcb65b33bafd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 32/57] fix: stow must not report success unless everything was
 stowed

---
 main_stow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..825fcc5 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -102,6 +102,7 @@ struct stow_job {
 	SHA256_CTX		mtree_sha;
 
 	struct subj		*meta;
+	int			stowed;
 
 	FILE *			missing;
 	FILE *			changed;
@@ -539,6 +540,7 @@ stevedore_in(int fd, void *priv, int revents)
 		break;
 	case PROTO_META:
 		fprintf(stderr, "STOWED as %s\n", (char*)u);
+		sj->stowed = 1;
 		proto_del_ev(&stevedore_0_ev);
 		break;
 	default:
@@ -770,6 +772,10 @@ main_stow(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			    WEXITSTATUS(st), WTERMSIG(st), WCOREDUMP(st));
 			exit(2);
 		}
+		if (!sj->stowed) {
+			fprintf(stderr, "Job %s was not completed\n", sj->job);
+			exit(2);
+		}
 
 		fprintf(stderr, "Done job %s\n", sj->job);
 	}
-- 
2.43.0


From f40801c5630e086ac0188bfcd11fc7678db6576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 33/57] fix: stow must not send the metadata before all files
 are sent

---
 main_stow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 825fcc5..14ea8e9 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -619,7 +619,7 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	if (sj->meta != NULL)
+	if (sj->meta != NULL && cp == NULL)
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From 9cd57ad48619408b048d22be6fe2e46e54255a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 34/57] fix: stow must be able to do more than one job

---
 main_stow.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_stow.c b/main_stow.c
index 14ea8e9..4514145 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -475,6 +475,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 	AN(pp);
 	pp++;
 	if (cp->directory == NULL && *cp->digest != '\0') {
+		VTAILQ_REMOVE(&ack_list, cp, list);
 		if (strncmp(cp->digest, pp, strlen(pp))) {
 			// XXX: debug
 			fprintf(stderr, "HERE %s %d\n\t%s\n\t%s\n",
-- 
2.43.0


From 79e920b2e459a1de04aa8b004fc7b1cf70ef7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 35/57] fix: stow must not block for ever when stevedore has
 much to say

---
 main_stow.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 4514145..9953975 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -557,6 +557,7 @@ stevedore_out(int fd, void *priv, int revents)
 	ssize_t i;
 	size_t j;
 	char buf[128*1024];
+	const size_t chunk = 3072;	/* POLLOUT promises 4096, filters included */
 	struct stow_job *sj;
 
 	CAST_OBJ_NOTNULL(sj, priv, STOW_JOB_MAGIC);
@@ -578,7 +579,7 @@ stevedore_out(int fd, void *priv, int revents)
 		proto_out(fd, PROTO_FILTER, cp->digest, j);
 	}
 	if (send_fd > 0) {
-		i = read(send_fd, buf, sizeof buf);
+		i = read(send_fd, buf, chunk);
 		assert(i >= 0);
 		proto_out(fd, PROTO_DATA, buf, i);
 		if (i > 0)
-- 
2.43.0


From afc56b12d31691c258384aa1eaee3f6953c130c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 36/57] fix: stow must cope with long names and link targets

---
 main_stow.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 9953975..8bb5755 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -97,7 +97,7 @@ struct stow_job {
 
 	pid_t			mtree_pid;
 	FILE *			mtree_tmp;
-	char			mtree_buf[8192];
+	char			mtree_buf[32 * 1024];
 	uintptr_t		mtree_ev;
 	SHA256_CTX		mtree_sha;
 
@@ -112,7 +112,7 @@ static VTAILQ_HEAD(,stow_job)	job_list = VTAILQ_HEAD_INITIALIZER(job_list);
 
 /**********************************************************************/
 
-static char mtree_path[4096];
+static char mtree_path[32 * 1024];
 static int mtree_type_dir;
 static struct dir *pwd;
 static int send_fd = -1;
@@ -178,6 +178,8 @@ mtree_interpret(char *line)
 			VTAILQ_INSERT_TAIL(&subj_list, cp, list);
 			proto_ctl_ev(stevedore_0_ev, 1);
 		} else {
+			assert(strlen(mtree_path) + strlen(w0) + 2 <=
+			    sizeof mtree_path);
 			strcat(mtree_path, "/");
 			strcat(mtree_path, w0);
 			// printf("D %s\n", mtree_path + 1);
-- 
2.43.0


From 5d431bf1ae5eb7f61d0b43c7e3fb1b7135d15468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 37/57] fix: stow must not fail when the end of the filter
 batch arrives last

The stevedore can report the end of the batch after it has acknowledged
the metadata, in which case we have closed the connection to it already.
---
 main_stow.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 8bb5755..f058e67 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -459,8 +459,9 @@ filter_resp(struct stow_job *sj, uint8_t *p, size_t len)
 	} else {
 		WRONG("Wrong 1-cmd");
 	}
-	AN(stevedore_0_ev);
-	proto_ctl_ev(stevedore_0_ev, 1);
+	/* The end of the last batch may come after we are done */
+	if (stevedore_0_ev)
+		proto_ctl_ev(stevedore_0_ev, 1);
 }
 
 static void
-- 
2.43.0


From 5d82578c9bbae41d49e8064a44319a3e6c879214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 38/57] fix: rebuild must not report success for a silo it
 could not read to the end

Truncated, damaged or unreadable silos gave exit status zero with the
remaining records missing from the output.  While here, close the silo
and release the inflate state once done with them, otherwise archives of
more than about a thousand silos run out of file descriptors.
---
 main_rebuild.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 42d7795..8e8a1c7 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -242,7 +243,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	FILE		*fi;
 	size_t		rz;
 	ssize_t		oz;
-	int		i;
+	int		i, retval = 0;
 
 	CAST_OBJ_NOTNULL(rb, priv, REBUILD_MAGIC);
 	fi = fopen(fn, "rb");
@@ -287,7 +288,23 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	AZ(close(rb->fdo));
 
-	return(0);
+	if (ferror(fi) || i != Z_OK || zs->total_in != 0 || rb->state != 0) {
+		fprintf(stderr, "Cannot read %s to the end: %s\n",
+		    (const char *)fn,
+		    ferror(fi) ? strerror(errno) :
+		    i != Z_OK ? "Damaged" : "Truncated");
+		retval = 1;
+		/* Get ready for the next silo */
+		if (rb->h != NULL)
+			Header_Destroy(&rb->h);
+		if (rb->state == 10)
+			(void)deflateEnd(rb->zs);
+		rb->hdrlen = 0;
+		rb->state = 0;
+	}
+	(void)inflateEnd(zs);
+	AZ(fclose(fi));
+	return (retval);
 }
 
 static void
-- 
2.43.0


From f207f94aeaa3a7e444cffea965ddf09355b15fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 39/57] fix: a configuration with syntax errors must be refused

Only a message was printed, and the sections from the error on were left
out, so that their settings silently took their default values.  Section
names are looked up without regard to case, so look for duplicates in the
same way.
---
 config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/config.c b/config.c
index 925cc65..bbc11a2 100644
--- a/config.c
+++ b/config.c
@@ -106,7 +106,7 @@ config_parse(struct config *cfg)
 				return ("Section colon trouble");
 			*r = '\0';
 			VTAILQ_FOREACH(sc, &cfg->sections, list)
-				if (!strcmp(sc->name, p))
+				if (!strcasecmp(sc->name, p))
 					return ("Duplicate sections");
 			ALLOC_OBJ(sc, SECTION_MAGIC);
 			AN(sc);
@@ -199,8 +199,12 @@ Config_Read(const char *fn)
 	}
 	cfg->space[st.st_size] = '\0';
 	e = config_parse(cfg);
-	if (e != NULL)
+	if (e != NULL) {
 		fprintf(stderr, "Config = %s\n", e);
+		config_destroy(cfg);
+		errno = EINVAL;
+		return (NULL);
+	}
 
 	return (cfg);
 }
-- 
2.43.0


From 450c17764892cc520994caf409419f572396cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 40/57] fix: configuration values must be refused if they
 cannot be used as they are

* silo.max_size, silo.basename and index.sort_size with a blank in the
  value ('100 M'), or with two values, silently took their defaults.
* Negative and astronomical sizes went through an undefined conversion
  and aborted the first store.
* Text after the number of bits in WARC-Record-ID was ignored, and the
  number was truncated to 32 bits.
* A silo.basename without conversion, or with one like %hhu or %c, gives
  different silos the same name.
* Objects stored with a prefix that contains angle brackets, or is so long
  that headers do not fit a page, cannot be read again.
---
 aardwarc.c | 57 +++++++++++++++++++++++++++++++++++++++++++++++-------
 vnum.c     |  7 ++++++-
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/aardwarc.c b/aardwarc.c
index 611c362..4a2d29b 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -46,9 +46,11 @@
 struct aardwarc *
 AardWARC_New(const char *config_file, struct vsb *err)
 {
-	int e;
+	int e, i;
 	struct aardwarc *aa;
 	const char *p, *p2;
+	char *q;
+	unsigned long ul;
 	uintmax_t um;
 
 	ALLOC_OBJ(aa, AARDWARC_MAGIC);
@@ -73,14 +75,25 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			    "'WARC-Record-ID' must end in '/'\n");
 			break;
 		}
+		if (strpbrk(aa->prefix, "<>") != NULL) {
+			VSB_printf(err,
+			    "'WARC-Record-ID' cannot contain '<' or '>'\n");
+			break;
+		}
+		if (strlen(aa->prefix) > 512) {
+			/* Headers have up to four of them, and must fit a page */
+			VSB_printf(err, "'WARC-Record-ID' is too long\n");
+			break;
+		}
 		if (p != NULL) {
-			aa->id_size = strtoul(p, NULL, 0);
-			if (aa->id_size < 64 || aa->id_size > 256) {
+			ul = strtoul(p, &q, 0);
+			if (*q != '\0' || ul < 64 || ul > 256) {
 				VSB_printf(err,
 				    "Illegal 'WARC-Record-ID' length %s.\n",
 				    "\tMust be [64...256] bits");
 				break;
 			}
+			aa->id_size = (unsigned)ul;
 			if (aa->id_size & 3) {
 				VSB_printf(err,
 				    "Illegal 'WARC-Record-ID' length %s.\n",
@@ -104,8 +117,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "silo.max_size", &p, NULL))
+		i = Config_Get(aa->cfg, "silo.max_size", &p, NULL);
+		if (i == ENOENT) {
 			p = "3.5G";
+		} else if (i) {
+			VSB_printf(err,
+			    "'silo.max_size' must have a single value\n");
+			break;
+		}
 
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
@@ -114,12 +133,30 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 		aa->silo_maxsize = (off_t)um;
+		if (aa->silo_maxsize < 0) {
+			VSB_printf(err, "'silo.max_size' is too big\n");
+			break;
+		}
 		assert(um == (uintmax_t)aa->silo_maxsize);
 
-		if (Config_Get(aa->cfg, "silo.basename", &p, NULL))
+		i = Config_Get(aa->cfg, "silo.basename", &p, NULL);
+		if (i == ENOENT) {
 			p = "%08u.warc.gz";
+		} else if (i) {
+			VSB_printf(err,
+			    "'silo.basename' must have a single value\n");
+			break;
+		}
 
-		if (fmtcheck(p, "%u") != p) {
+		/* fmtcheck(3) is happy with no conversion, and with %hhu */
+		p2 = strchr(p, '%');
+		while (p2 != NULL && p2[1] == '%')
+			p2 = strchr(p2 + 2, '%');
+		if (p2 != NULL)
+			p2 += 1 + strspn(p2 + 1, "#0- +'.123456789");
+
+		if (fmtcheck(p, "%u") != p || p2 == NULL || *p2 == '\0' ||
+		    strchr("diouxX", *p2) == NULL) {
 			VSB_printf(err,
 			    "'silo.basename' wrong format. %s\n",
 			    "Must have a single %u compatible printf-pattern");
@@ -132,8 +169,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "index.sort_size", &p, NULL))
+		i = Config_Get(aa->cfg, "index.sort_size", &p, NULL);
+		if (i == ENOENT) {
 			p = "10M";
+		} else if (i) {
+			VSB_printf(err,
+			    "'index.sort_size' must have a single value\n");
+			break;
+		}
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
 			VSB_printf(err,
diff --git a/vnum.c b/vnum.c
index 052f95a..967da6d 100644
--- a/vnum.c
+++ b/vnum.c
@@ -110,6 +110,8 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 		return (err_invalid_num);
 
 	if (end == NULL) {
+		if (!(fval >= 0. && fval < 18446744073709551616.))
+			return (err_invalid_num);
 		*r = (uintmax_t)fval;
 		return (NULL);
 	}
@@ -156,6 +158,9 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 			return (err_invalid_suff);
 	}
 
-	*r = (uintmax_t)round(fval);
+	fval = round(fval);
+	if (!(fval >= 0. && fval < 18446744073709551616.))
+		return (err_invalid_num);
+	*r = (uintmax_t)fval;
 	return (NULL);
 }
-- 
2.43.0


From 2f9e8a83abac2b6e5b2161c926a34845b45e12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 41/57] fix: do without a warcinfo.body section, and with
 entries without a value

Making the first silo aborted, and left its hold file, if the section was
missing or empty, and wrote '(null)' for entries with nothing but a name.
---
 warcinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcinfo.c b/warcinfo.c
index 2f43b29..d7fab87 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -66,7 +66,7 @@ c_iter(void *priv, const char *name, const char *arg)
 		return(0);
 	if (!strcasecmp(name, "title:"))
 		return(0);
-	VSB_printf(wi->body, "%s %s\r\n", name, arg);
+	VSB_printf(wi->body, "%s %s\r\n", name, arg != NULL ? arg : "");
 	return (0);
 }
 
@@ -97,7 +97,8 @@ Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
 	wi->body = VSB_new_auto();
 	AN(wi->body);
 	VSB_printf(wi->body, "title: %s\r\n", r);
-	AZ(Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter));
+	/* We can do without this section */
+	(void)Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter);
 	VSB_printf(wi->body, "format: WARC file version 1.1\r\n");
 	VSB_printf(wi->body, "conformsTo: %s\r\n",
 	    "http://iipc.github.io/warc-specifications/"
-- 
2.43.0


From b891a2d692c97b41130a1871ff1f73dac6b65aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 42/57] fix: store must refuse mime types that cannot be kept
 in a header

With a '*' in the mime-types, CR and LF in the -m argument ended up in the
header, as did text longer than the page in which headers are read back:
The object was stored and acknowledged, but could not be delivered, and
audit and reindex failed for the entire silo.
---
 main_store.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/main_store.c b/main_store.c
index 330e022..5fc926c 100644
--- a/main_store.c
+++ b/main_store.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <fcntl.h>
 #include <stdio.h>
@@ -60,6 +61,15 @@ mime_type(struct aardwarc *aa, const char *wt, const char *mt)
 	int i;
 	const char *p, *g;
 
+	/* It goes in a header, and those must fit a page */
+	for (p = mt; *p != '\0'; p++)
+		if (iscntrl((unsigned char)*p))
+			break;
+	if (*p != '\0' || strlen(mt) > 512) {
+		fprintf(stderr, "Illegal mime-type\n");
+		return (EINVAL);
+	}
+
 	if (wt == WT_RESOURCE)
 		g = "resource.mime-types";
 	else
-- 
2.43.0


From 2f442514d90eb5162563fa9cacb7c336e803b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 43/57] fix: a silo.max_size too small for the headers must be
 refused

Instead of one of five different assertions, which also left hold files
behind and thus used up silo numbers, say what the trouble is.
---
 aardwarc.h |  2 +-
 segjob.c   |  7 +++++--
 warcinfo.c |  8 ++++++++
 wsilo.c    | 16 ++++++++++++++--
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 59dbbb7..1c75842 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -218,7 +218,7 @@ struct wsilo *Wsilo_Next(struct aardwarc *);
 void Wsilo_GetSpace(const struct wsilo *, void **ptr, ssize_t *len);
 int Wsilo_Store(struct wsilo *, ssize_t len);
 void Wsilo_Finish(struct wsilo *);
-void Wsilo_Header(struct wsilo *, struct header *, int pad);
+int Wsilo_Header(struct wsilo *, struct header *, int pad);
 void Wsilo_Commit(struct wsilo **, int segd, const char *id, const char *rid);
 void Wsilo_Install(struct wsilo **);
 void Wsilo_Abandon(struct wsilo **);
diff --git a/segjob.c b/segjob.c
index 6ed66ad..5cac56e 100644
--- a/segjob.c
+++ b/segjob.c
@@ -149,9 +149,12 @@ segjob_newseg(struct segjob *sj)
 
 	sg->silo = Wsilo_Next(sj->aa);
 	AN(sg->silo);
-	Wsilo_Header(sg->silo, sg->hdr, pad);
-
 	VTAILQ_INSERT_TAIL(&sj->segments, sg, list);
+	if (Wsilo_Header(sg->silo, sg->hdr, pad)) {
+		fprintf(stderr, "'silo.max_size' is too small\n");
+		SegJob_Abandon(sj);
+		exit(2);
+	}
 
 	SHA256_Init(sj->sha256_segment);
 	Gzip_InitDeflate(sj->gz);
diff --git a/warcinfo.c b/warcinfo.c
index d7fab87..d4cf341 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -127,6 +127,14 @@ Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
 	assert(len2 > 0);
 
 	Wsilo_GetSpace(wsl, &ptr, &len);
+	if (len < len2 + VSB_len(wi->body) + (ssize_t)sizeof Gzip_crnlcrnl) {
+		/* Does not fit in a silo */
+		VSB_delete(vsb);
+		VSB_delete(wi->body);
+		Header_Destroy(&wi->hdr);
+		FREE_OBJ(wi);
+		return (NULL);
+	}
 	assert(len2 <= len);
 	memcpy(ptr, VSB_data(vsb), len2);
 	AZ(Wsilo_Store(wsl, len2));
diff --git a/wsilo.c b/wsilo.c
index 83fc93c..edd6513 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -50,6 +50,9 @@
 
 #define PADDING_HEADER "z"
 
+/* Least space for a body, SegJob_Feed() needs some 130 bytes to work with */
+#define MIN_BODY 200
+
 struct wsilo {
 	unsigned		magic;
 #define WSILO_MAGIC		0x4a454db2
@@ -196,6 +199,11 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	sl->aa = aa;
 
 	sl->warcinfo_id = Warcinfo_New(sl->aa, sl, sl->silo_no);
+	if (sl->warcinfo_id == NULL) {
+		fprintf(stderr, "'silo.max_size' is too small\n");
+		AZ(unlink(VSB_data(sl->hold_fn)));
+		exit(2);
+	}
 
 	return (sl);
 }
@@ -235,7 +243,7 @@ wsilo_delete(struct wsilo *sl)
 
 /* Reserve space for first objects WARC header ------------------------*/
 
-void
+int
 Wsilo_Header(struct wsilo *sl, struct header *hd, int pad)
 {
 	struct vsb *v2;
@@ -267,7 +275,10 @@ Wsilo_Header(struct wsilo *sl, struct header *hd, int pad)
 	sl->hd_len = len2 + pad;
 
 	Wsilo_GetSpace(sl, &obuf_ptr, &obuf_len);
-	assert(sl->hd_len < obuf_len);
+	if (sl->hd_len + MIN_BODY > obuf_len) {
+		VSB_delete(v2);
+		return (-1);
+	}
 	memcpy(obuf_ptr, VSB_data(v2), len2);
 	AZ(Wsilo_Store(sl, len2));
 
@@ -277,6 +288,7 @@ Wsilo_Header(struct wsilo *sl, struct header *hd, int pad)
 	AZ(Wsilo_Store(sl, pad));
 
 	VSB_delete(v2);
+	return (0);
 }
 
 /* Buffered Write functions -------------------------------------------*/
-- 
2.43.0


From b9440d9fcbc85f0652a73289c4b716047af5f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 44/57] fix: a relative silo.directory can be created

---
 wsilo.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index edd6513..eb8041c 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -92,10 +92,9 @@ silo_mkparentdir(const char *path)
 	p = strdup(path);
 	AN(p);
 	q = strrchr(p, '/');
-	if (q == p)
+	if (q == NULL || q == p)
 		return (0);
-	if (q != NULL)
-		*q = '\0';
+	*q = '\0';
 	i = stat(p, &st);
 	if (i < 0 && errno == ENOENT) {
 		i = silo_mkparentdir(p);
-- 
2.43.0


From ef16539810f252fbe4d31b42d0ef339e4e009abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 45/57] fix: mksilo must refuse what is not a silo number

---
 main_mksilo.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/main_mksilo.c b/main_mksilo.c
index 30bddeb..2d82df2 100644
--- a/main_mksilo.c
+++ b/main_mksilo.c
@@ -27,7 +27,10 @@
  *
  */
 
+#include <ctype.h>
+#include <errno.h>
 #include <fcntl.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -54,6 +57,8 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	int ch, retval = 0;
 	const char *a00 = *argv;
 	unsigned u;
+	unsigned long ul;
+	char *p;
 	struct wsilo *ws;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
@@ -77,7 +82,18 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		usage_mksilo(a0, a00, "No silo#.");
 		exit(1);
 	}
-	u = strtoul(argv[0], NULL, 0);
+	if (argc > 1) {
+		usage_mksilo(a0, a00, "Only one silo#.");
+		exit(1);
+	}
+	errno = 0;
+	ul = strtoul(argv[0], &p, 0);
+	if (!isdigit((unsigned char)argv[0][0]) || *p != '\0' ||
+	    errno != 0 || ul > UINT32_MAX) {
+		usage_mksilo(a0, a00, "Bad silo#.");
+		exit(1);
+	}
+	u = (unsigned)ul;
 	ws = Wsilo_New(aa, u);
 	if (ws == NULL) {
 		usage_mksilo(a0, a00, "Could not.");
-- 
2.43.0


From c98af4ef83017025a11609964fac291a3fad5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:43 +0000
Subject: [PATCH 46/57] fix: reserve room in the headers of segments for
 lengths of highly compressible data

The reserved space of WARC-Segment-Total-Length lacked the extra digits
('%00jd' prints none), and two extra digits for Content-Length allow only
a hundredfold compression.  store aborted on objects such as 15k of noise
followed by 2M of zero bytes in silos of 16k.
---
 segjob.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segjob.c b/segjob.c
index 5cac56e..ac893ea 100644
--- a/segjob.c
+++ b/segjob.c
@@ -125,12 +125,13 @@ segjob_newseg(struct segjob *sj)
 	Header_Set(sg->hdr, "WARC-Block-Digest", "sha256:%s", digest);
 
 	/*
-	 * We reserve two extra digits to allow up to 99% compression.
+	 * We reserve four extra digits, because deflate can compress a
+	 * bit more than a thousand times.
 	 * This also covers the case where data is already gzip'ed and
 	 * the C-L-G is longer than the C-L
 	 */
 	im = sj->aa->silo_maxsize;
-	Header_Set(sg->hdr, "Content-Length", "00%jd", im);
+	Header_Set(sg->hdr, "Content-Length", "0000%jd", im);
 
 	if (sg->segno == 1) {
 		pad += Header_Len("WARC-Segment-Number", "1");
@@ -142,7 +143,7 @@ segjob_newseg(struct segjob *sj)
 
 		/* In case this becomes the last segment */
 		im = sj->size + sj->aa->silo_maxsize;
-		pad += Header_Len("WARC-Segment-Total-Length", "%00jd", im);
+		pad += Header_Len("WARC-Segment-Total-Length", "0000%jd", im);
 	}
 
 	REPLACE(digest, NULL);
-- 
2.43.0


From df54803c475f399be0d707f7bda5602f16762159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 47/57] fix: dumpindex -t lists segmented objects too

---
 main_dumpindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 77fcb25..f1b8427 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -57,7 +57,7 @@ dumpindex_iter(void *priv, const char *key,
 	uint32_t *u;
 
 	u = priv;
-	if (*u != 0 && flag != *u)
+	if (*u != 0 && !(flag & *u))
 		return (0);
 	printf("%s 0x%08x %8u %12jd %s\n", key, flag, silo, offset, cont);
 	return(0);
-- 
2.43.0


From bdd442e5c73a10568dda3b7d779f0453d85cef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 48/57] fix: backup utility survives that a silo is gone

A silo which is listed in silodates.txt but no longer in SILODIR made
every run of select_silos.py die with an AttributeError, before anything
was staged.
---
 utilities/select_silos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index af1494d..aa11ccc 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -239,6 +239,7 @@ class Silo():
     def __init__(self, fn):
         SILOS[fn] = self
         self.fn = fn
+        self.fpn = None
         self.now_sz = 0
         self.last_sz = 0
         self.last_tm = 0
@@ -290,6 +291,9 @@ def main(sdir):
 
     q = 0
     for s in sorted(list(SILOS.values())):
+        if s.fpn is None:
+            # In silodates.txt, but no longer in SILODIR
+            continue
         if q + s.now_sz > QUOTA:
             break
         q += s.now_sz
-- 
2.43.0


From a335268b84eb548ab2e804fac9b34f5afc754c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 49/57] fix: a silo bigger than the quota does not keep all
 others from backup

It is always first in the order of bytes not yet staged, and the selection
stopped there.
---
 utilities/select_silos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index aa11ccc..9cee719 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -294,6 +294,9 @@ def main(sdir):
         if s.fpn is None:
             # In silodates.txt, but no longer in SILODIR
             continue
+        if s.now_sz > QUOTA:
+            print("BIG", "%13d" % s.now_sz, s.fpn)
+            continue
         if q + s.now_sz > QUOTA:
             break
         q += s.now_sz
-- 
2.43.0


From 7bdc033c433772f7a37f909a9f076791b62c7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 50/57] fix: silos count as backed up only once they are in
 STAGING

silodates.txt was replaced before the new staging directory was renamed
into place.  When the script was killed in between, the silos selected
were never offered, but came last in the order of the next run.
---
 utilities/select_silos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index 9cee719..4eae72e 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -314,8 +314,6 @@ def main(sdir):
         fo.write("%s %.3f %d\n" % (s.fn, s.last_tm, s.last_sz))
     fo.close()
 
-    os.rename(SILODATES + ".new", SILODATES)
-
 if __name__ == "__main__":
 
     snew = STAGING + ".new"
@@ -337,4 +335,7 @@ if __name__ == "__main__":
 
     os.rename(snew, STAGING)
 
+    # Not until now have they been staged
+    os.rename(SILODATES + ".new", SILODATES)
+
     shutil.rmtree(sold, ignore_errors=True)
-- 
2.43.0


From 5801c5bd92b7b04bec1314203f2d0786feac6c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:26 +0000
Subject: [PATCH 51/57] fix: backup utility notices when its files cannot be
 written

The files were closed by their destructors, where Python ignores errors:
with a full disk the staged files lost their ends, or everything, and the
exit status was zero.
---
 utilities/select_silos.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index 4eae72e..a015599 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -209,16 +209,16 @@ def Encrypt_File(sfn, dfn):
         backend=default_backend()
     )
 
-    fi = open(sfn, "rb")
-    fo = open(dfn, "wb")
-    while True:
-        a = fi.read(65536)
-        if not a:
-            break
-        b = encryption.update(a)
-        authentication.update(b)
-        integrity.update(b)
-        fo.write(b)
+    # Errors from writing must not wait until nobody sees them
+    with open(sfn, "rb") as fi, open(dfn, "wb") as fo:
+        while True:
+            a = fi.read(65536)
+            if not a:
+                break
+            b = encryption.update(a)
+            authentication.update(b)
+            integrity.update(b)
+            fo.write(b)
 
     b = encryption.finalize()
     assert len(b) == 0	# CTR mode
@@ -227,11 +227,13 @@ def Encrypt_File(sfn, dfn):
 			    # integrity.update(b)
 			    # fo.write(b)
 
-    open(dfn + ".hmac", "w").write(authentication.finalize().hex() + "\n")
-    open(dfn + ".sha256", "w").write(
-        "SHA256 (%s) = " % os.path.basename(dfn) +
-        integrity.finalize().hex() + "\n"
-    )
+    with open(dfn + ".hmac", "w") as fo:
+        fo.write(authentication.finalize().hex() + "\n")
+    with open(dfn + ".sha256", "w") as fo:
+        fo.write(
+            "SHA256 (%s) = " % os.path.basename(dfn) +
+            integrity.finalize().hex() + "\n"
+        )
 
 
 class Silo():
-- 
2.43.0


From a06b1a9a413bf589ed16a11150b4b62e46f06440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:27 +0000
Subject: [PATCH 52/57] fix: backup utility notices when SILODIR cannot be read

os.walk() ignores errors by default: with SILODIR, or a directory in it,
missing or unreadable, the staging directory was replaced by an empty or
incomplete one with exit status zero.
---
 utilities/select_silos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index a015599..d50dcdf 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -275,6 +275,10 @@ def silo(f):
         s = Silo(f)
     return s
 
+def walk_error(err):
+    ''' Silos must not be left out because a directory cannot be read '''
+    raise err
+
 def main(sdir):
 
     try:
@@ -286,7 +290,7 @@ def main(sdir):
     except FileNotFoundError:
         pass
 
-    for path, _b, files in os.walk(SILODIR):
+    for path, _b, files in os.walk(SILODIR, onerror=walk_error):
         for f in files:
             if f[-8:] == ".warc.gz":
                 silo(f).probe(os.path.join(path, f))
-- 
2.43.0


From 83fbd825201712892de5348dfb83fa0b174dc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 53/57] fix: reindex compares whole index keys when it matches
 segments

Two objects whose IDs agree in the first 16 digits got index entries
that continue with the segments of the other one.
---
 main_reindex.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index fbc77fb..dc99825 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -124,15 +124,21 @@ static int v_matchproto_(idx_iter_f)
 reindex_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
+	struct aardwarc *aa;
 	struct seg *seg, *seg2;
+	size_t len;
 
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
 	(void)silo;
 	(void)offset;
+	len = strlen(key);
+	if (len > aa->id_size)
+		len = aa->id_size;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncmp(key, seg->id, 16)) {
-			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
+		if (!strncasecmp(key, seg->id, len)) {
+			IDX_Insert(aa, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
 			drop_seg(seg);
-- 
2.43.0


From 55bf1c6615cb805288cba1e76266f07123cba216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 54/57] fix: reindex takes continuations only from a segment's
 own index entry

An entry for another record with the same ID, such as a copy that was
split differently, could give the segment a wrong continuation, after
which the object could no longer be retrieved.
---
 main_reindex.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index dc99825..ea682b4 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -129,15 +129,18 @@ reindex_iter(void *priv, const char *key,
 	size_t len;
 
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
-	(void)silo;
-	(void)offset;
 	len = strlen(key);
 	if (len > aa->id_size)
 		len = aa->id_size;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncasecmp(key, seg->id, len)) {
+		/*
+		 * Other segments can have the same key, even the same ID,
+		 * and continue differently.
+		 */
+		if (silo == seg->silono && offset == seg->off &&
+		    !strncasecmp(key, seg->id, len)) {
 			IDX_Insert(aa, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
-- 
2.43.0


From aa8961ff75abda00f402012d9de9d91bdb7c0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:47 +0000
Subject: [PATCH 55/57] fix: filter refuses a line that begins with NUL instead
 of aborting

---
 main_filter.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 7797c4b..9f47f5d 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -154,8 +154,7 @@ read_file(const struct aardwarc *aa, FILE *fi)
 
 	while (fgets(buf, sizeof buf, fi) != NULL) {
 		sl = strlen(buf);
-		AN(sl);
-		if (buf[sl - 1] != '\n') {
+		if (sl == 0 || buf[sl - 1] != '\n') {
 			fprintf(stderr, "Over long line \"%.40s...\"\n",
 			    buf);
 			exit(1);
-- 
2.43.0


From ac938f1c737fa92618e38c8b37408cec97007778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 56/57] fix: get -z and cgi gave a wrong CRC when a later
 segment is of 4 GB or more

---
 aardwarc.h |  1 +
 getjob.c   |  5 ++++-
 gzip.c     | 17 ++++++++++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 1c75842..dfaf2f9 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -110,6 +110,7 @@ void Gzip_WriteAa(int, int64_t);
 
 struct gzip_stitch;
 struct gzip_stitch * gzip_stitch_new(byte_iter_f *func, void *priv);
+void gzip_stitch_length(struct gzip_stitch *gs, intmax_t len);
 int gzip_stitch_feed(void *priv, const void *ptr, ssize_t len);
 int gzip_stitch_fini(struct gzip_stitch *gs);
 
diff --git a/getjob.c b/getjob.c
index 6ea5c75..31222de 100644
--- a/getjob.c
+++ b/getjob.c
@@ -262,9 +262,12 @@ GetJob_Iter(const struct getjob *gj, byte_iter_f *func, void *priv, int gzip)
 		(void)Rsilo_ReadGZChunk(gjs->rs, func, priv);
 	} else {
 		gs = gzip_stitch_new(func, priv);
-		VTAILQ_FOREACH(gjs, &gj->segs, list)
+		VTAILQ_FOREACH(gjs, &gj->segs, list) {
+			gzip_stitch_length(gs,
+			    Header_Get_Number(gjs->hdr, "Content-Length"));
 			if (Rsilo_ReadGZChunk(gjs->rs, gzip_stitch_feed, gs) == 0)
 				break;
+		}
 		(void)gzip_stitch_fini(gs);
 	}
 }
diff --git a/gzip.c b/gzip.c
index ea632e9..f561b0e 100644
--- a/gzip.c
+++ b/gzip.c
@@ -225,6 +225,7 @@ struct gzip_stitch {
 	void			*priv;
 	const char		*state;
 	ssize_t			gzlen;
+	intmax_t		seglen;
 	int			retval;
 	uint32_t		crc;
 	uint32_t		l_crc;
@@ -265,6 +266,19 @@ gzip_stitch_new(byte_iter_f *func, void *priv)
 	return(gs);
 }
 
+/*
+ * The trailers only have the length of the segments modulo 2^32, and
+ * that is not enough to combine the CRCs.
+ */
+
+void
+gzip_stitch_length(struct gzip_stitch *gs, intmax_t len)
+{
+
+	CHECK_OBJ_NOTNULL(gs, GZIP_STITCH_MAGIC);
+	gs->seglen = len > 0 ? len : 0;
+}
+
 int
 gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 {
@@ -335,7 +349,8 @@ gzip_stitch_feed(void *priv, const void *ptr, ssize_t len)
 			crc = le32dec(p + 5);
 			bytes = le32dec(p + 9);
 			gs->l_crc += bytes;
-			gs->crc = crc32_combine(gs->crc, crc, bytes);
+			gs->crc = crc32_combine(gs->crc, crc,
+			    (gs->seglen & ~(intmax_t)UINT32_MAX) | bytes);
 			gs->state = GZSTATE_OUTSIDE;
 			len -= 13;
 		}
-- 
2.43.0


From 223a11987ed370e75911da592006b8ef72c1a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:23 +0000
Subject: [PATCH 57/57] fix: rebuild overran a buffer with a WARC-record-digest
 record of over 8 kB

---
 main_rebuild.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 8e8a1c7..fa18a40 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -53,7 +53,7 @@ struct rebuild {
 	int				fdo;
 
 	char				hdrbuf[BUFSIZ];
-	unsigned char			fixbuf[BUFSIZ];
+	unsigned char			*fixbuf;
 	size_t				hdrlen;
 	struct vsb			*vsb;
 	int				state;
@@ -106,6 +106,9 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			if (q != NULL) {
 				rb->state = 3;
 				rb->rlen = 0;
+				AZ(rb->fixbuf);
+				rb->fixbuf = malloc(rb->clen + 1);
+				AN(rb->fixbuf);
 				SHA256_Init(rb->sha256);
 				continue;
 			}
@@ -166,10 +169,17 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->body_start = lseek(rb->fdo, 0, SEEK_CUR);
 			Gzip_InitDeflate(rb->zs);
 			Gzip_AddAa(rb->zs);
-			rb->zs->avail_in = rb->clen;
-			rb->zs->next_in = rb->fixbuf;
-			rb->rlen = 0;
-			rb->state = 11;
+			rb->rlen = rb->clen;
+			rb->state = 10;
+			/* In pieces for which obuf has room */
+			for (oz = 0; oz < rb->clen; oz += wz) {
+				wz = rb->clen - oz;
+				if (wz > (ssize_t)sizeof rb->obuf / 2)
+					wz = sizeof rb->obuf / 2;
+				rebuild_process(rb, rb->fixbuf + oz, wz);
+			}
+			free(rb->fixbuf);
+			rb->fixbuf = NULL;
 			continue;
 		}
 		if (rb->state == 10) {
@@ -299,6 +309,8 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 			Header_Destroy(&rb->h);
 		if (rb->state == 10)
 			(void)deflateEnd(rb->zs);
+		free(rb->fixbuf);
+		rb->fixbuf = NULL;
 		rb->hdrlen = 0;
 		rb->state = 0;
 	}
-- 
2.43.0

