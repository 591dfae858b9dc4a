From c8f15790acf8665ff5dd26eac1c8178f8d6f8a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 01/54] fix: do not read past the end of short triplet and pair
 values

---
 dnstable/triplet.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..e289b09 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -16,6 +16,18 @@
 
 #include "dnstable-private.h"
 
+/* Decode the varint at buf[*pos], if it lies completely within the buffer. */
+static bool
+unpack_val(const uint8_t *buf, size_t len_buf, size_t *pos, uint64_t *val)
+{
+	unsigned len = mtbl_varint_length_packed(buf + *pos, len_buf - *pos);
+
+	if (len == 0 || len > 10)
+		return (false);
+	*pos += mtbl_varint_decode64(buf + *pos, val);
+	return (true);
+}
+
 size_t
 triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 {
@@ -30,9 +42,10 @@ dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
 	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
+	if (!unpack_val(buf, len_buf, &bytes_read, val1) ||
+	    !unpack_val(buf, len_buf, &bytes_read, val2) ||
+	    !unpack_val(buf, len_buf, &bytes_read, val3))
+		return (dnstable_res_failure);
 	if (bytes_read == len_buf)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
@@ -51,8 +64,9 @@ dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
 	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
+	if (!unpack_val(buf, len_buf, &bytes_read, val1) ||
+	    !unpack_val(buf, len_buf, &bytes_read, val2))
+		return (dnstable_res_failure);
 	if (bytes_read == len_buf)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
-- 
2.43.0


From bbcae33589de5db87e51e25518a9d2842936525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 02/54] fix: do not read past the end of a stored record when
 decoding it

---
 dnstable/entry.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..6437dc2 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -625,6 +625,26 @@ decode_val_triplet(struct dnstable_entry *e, const uint8_t *val, size_t len_val)
 	return (res);
 }
 
+/* Decode the varint at *p, if it lies completely before end, and move past it. */
+static dnstable_res
+decode_val32(const uint8_t **p, const uint8_t *end, uint32_t *v)
+{
+	unsigned len = mtbl_varint_length_packed(*p, end - *p);
+
+	if (len == 0 || len > 5)
+		return (dnstable_res_failure);
+	*p += mtbl_varint_decode32(*p, v);
+	return (dnstable_res_success);
+}
+
+static dnstable_res
+decode_rrtype(const uint8_t **p, const uint8_t *end, uint32_t *rrtype)
+{
+	if (decode_val32(p, end, rrtype) != dnstable_res_success)
+		return (dnstable_res_failure);
+	return (*rrtype <= USHRT_MAX ? dnstable_res_success : dnstable_res_failure);
+}
+
 static dnstable_res
 decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 {
@@ -646,8 +666,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	if (decode_rrtype(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
 
 	/* bailiwick */
@@ -667,11 +686,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		if (decode_val32(&p, end, &len_rdata) != dnstable_res_success)
+			return (dnstable_res_failure);
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
-		if (p + len_rdata > end)
+		if (len_rdata > (size_t)(end - p))
 			return (dnstable_res_failure);
 
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_rdata);
@@ -736,13 +756,12 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 
 	/* data */
 	data = p;
-	p += len_data;
-	if (p > end)
+	if (len_data > end - p)
 		return (dnstable_res_failure);
+	p += len_data;
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	if (decode_rrtype(&p, end, &e->rrtype) != dnstable_res_success)
 		return (dnstable_res_failure);
 
 	/* rrname */
@@ -797,14 +816,15 @@ decode_version(struct dnstable_entry *e,
 	       const uint8_t *key, size_t len_key,
 	       const uint8_t *val, size_t len_val)
 {
-	size_t len;
+	const uint8_t *p = val;
 
 	if (len_key != 1 || len_val == 0)
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
-	if (len == len_val)
+	if (decode_val32(&p, val + len_val, &e->version) != dnstable_res_success)
+		return (dnstable_res_failure);
+	if (p == val + len_val)
 		return (dnstable_res_success);
 
 	return (dnstable_res_failure);
-- 
2.43.0


From a4c79234dbb887383bfa6826fb37a04db8ad876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 03/54] fix: do not decode records of unknown type as rrsets

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 6437dc2..9182f35 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -871,6 +871,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From b04a505479b38b7474e99397703798397fc79c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 04/54] fix: refuse the rdata index one past the last rdata

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 9182f35..bcd4790 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1019,7 +1019,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From ed61213ba3fd048624322f1e2ce502b13bb8e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 05/54] fix: do not look past the end of an rrtype bitmap block

---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index bcd4790..d344590 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1222,7 +1222,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From 068caec1e528d5b654fa33b92aa78ab1869fc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 06/54] fix: do not accept malformed names in name index
 records

---
 dnstable/entry.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index d344590..a3c2099 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -708,6 +708,12 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 static dnstable_res
 decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success ||
+	    len_name != len_buf)
+		return (dnstable_res_failure);
+
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	memcpy(e->name.data, buf, len_buf);
@@ -721,6 +727,12 @@ decode_rrset_name_fwd(struct dnstable_entry *e, const uint8_t *buf, size_t len_b
 static dnstable_res
 decode_rdata_name_rev(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf, const uint8_t *val, size_t len_val)
 {
+	size_t len_name;
+
+	if (wdns_len_uname(buf, buf + len_buf, &len_name) != wdns_res_success ||
+	    len_name != len_buf)
+		return (dnstable_res_failure);
+
 	e->name.len = len_buf;
 	e->name.data = my_malloc(len_buf);
 	if (wdns_reverse_name(buf, len_buf, e->name.data) != wdns_res_success)
-- 
2.43.0


From f1ac0af5362230f24bd985dd854aaab9a04725e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 07/54] fix: do not accept sliced rdata longer than 65535 bytes

---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index a3c2099..63ea224 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -796,6 +796,8 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	} else {
 		slice = p;
 		len_slice = end - p;
+		if (len_slice + len_data > USHRT_MAX)
+			return (dnstable_res_failure);
 		rdata = my_malloc(sizeof(wdns_rdata_t) + len_slice + len_data);
 		rdata->len = len_slice + len_data;
 		memcpy(rdata->data, slice, len_slice);
-- 
2.43.0


From c95ecc401361ca33db0e4aa525c0b130b1974bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 08/54] fix: show times without RFC 3339 form as seconds
 instead of wrong years or an abort

---
 dnstable/entry.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 63ea224..6e5c9fb 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -98,6 +98,9 @@ fmt_rfc3339(const struct tm *src, char *dst)
 	dst[19] = 'Z';
 }
 
+/* 9999-12-31T23:59:59Z, the last time which has an RFC 3339 representation. */
+#define RFC3339_TIME_MAX	UINT64_C(253402300799)
+
 static void
 fmt_rfc3339_time(ubuf *u, uint64_t v)
 {
@@ -105,6 +108,11 @@ fmt_rfc3339_time(ubuf *u, uint64_t v)
 	time_t tm = v;
 	char ts[]="0000-00-00T00:00:00Z";
 
+	if (v > RFC3339_TIME_MAX) {
+		JSON_NUM_APPEND(u, v);
+		return;
+	}
+
 	r = gmtime_r(&tm, &gm);
 	assert(r != NULL);
 
@@ -124,6 +132,11 @@ fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 	time_t tm = v;
 	char ts[] = "0000-00-00T00:00:00Z";
 
+	if (v > RFC3339_TIME_MAX) {
+		JSON_NUM_APPEND(u, v);
+		return;
+	}
+
 	r = gmtime_r(&tm, &gm);
 	assert(r != NULL);
 
-- 
2.43.0


From edabd8da37d351706bab3775a2e10febccbe8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/54] fix: leave room for the window headers when merging
 rrtype unions

---
 dnstable/dnstable-private.h | 2 +-
 dnstable/merge.c            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..1030f4c 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -118,7 +118,7 @@ dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
  * possible RRtypes.  As an example, "boxun.com.cn." in 2017 had 111
  * unique RRtypes defined, many not standardized.
  */
-#define MAX_RRTYPES_MAPPABLE 65535
+#define MAX_RRTYPES_MAPPABLE 65536
 
 typedef struct {
 	uint16_t rrtypes[MAX_RRTYPES_MAPPABLE];
diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..5dce2d0 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	uint8_t result_data[256 * (2 + 32)];	/* 256 windows with a 2 byte header each */
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -131,7 +131,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data)/sizeof(&result_data[0]));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +160,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data)/sizeof(&result_data[0]));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 73171c7e0498e53e66879654b2e84c20156389e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 10/54] fix: do not leak the key copies of a remove iterator

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From 9ee99db9efdcc2d75eb46ea40a1c0e6fc8f2f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 11/54] fix: give readers of a set file a source for full scans

---
 dnstable/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/reader.c b/dnstable/reader.c
index ca39a15..0b2124e 100644
--- a/dnstable/reader.c
+++ b/dnstable/reader.c
@@ -53,6 +53,7 @@ dnstable_reader_init_setfile(const char *setfile)
 	mtbl_fileset_options_set_merge_func(fopt, dnstable_merge_func, NULL);
 	r->fs = mtbl_fileset_init(setfile, fopt);
 	mtbl_fileset_options_destroy(&fopt);
+	r->source = mtbl_fileset_source(r->fs);
 
 	return (r);
 }
-- 
2.43.0


From 7b5d29e4703728235288cf24962ac83f370070ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 12/54] fix: compute the bounds of an IPv4 /0 prefix without an
 undefined shift

---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..4576797 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(~(uint32_t)((1ULL << (32 - prefix_len)) - 1ULL));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t)((1ULL << (32 - prefix_len)) - 1ULL));
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From b071ca9957f4827e91eae32945b0ea55ea6e98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 13/54] fix: check the size of a merged rrtype union against
 the buffer, not an eighth of it

---
 dnstable/merge.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index 5dce2d0..be4b5e8 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -131,7 +131,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       <= sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +160,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       <= sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 90517604cde1f2f0d238d99e9ef8534aff7cfe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 14/54] fix: do not read past the end of short keys in the
 rdata IP filter

---
 dnstable/query.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..39bfdef 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1136,8 +1136,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		ubuf_append(seek_key, key, key_prefix_len);
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
-		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key), key,
+				    len_key < ubuf_size(seek_key) ? len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
@@ -1209,7 +1209,13 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		}
 
 		for (;;) {
-			uint8_t llen = key[ubuf_size(seek_key)];
+			uint8_t llen;
+
+			if (ubuf_size(seek_key) >= len_key) {
+				/* There's no more key data to copy. Move to next key. */
+				return (mtbl_res_success);
+			}
+			llen = key[ubuf_size(seek_key)];
 
 			/*
 			 * Note: the ENTRY_TYPE_RDATA has 5 fields. We enter
-- 
2.43.0


From 02ea56cf801aee205ee3b13a1c09f1a8190f61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 15/54] fix: do not read past the end of a key when filtering
 by rrtype or bailiwick

---
 dnstable/query.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 39bfdef..dee8e7f 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -730,6 +730,20 @@ seek:
 
 }
 
+/*
+ * Decode the rrtype varint at key[pos], if it lies completely within the key.
+ * Returns its length, 0 if it does not.
+ */
+static size_t
+decode_key_rrtype(const uint8_t *key, size_t len_key, size_t pos, uint32_t *rrtype)
+{
+	unsigned len = mtbl_varint_length_packed(key + pos, len_key - pos);
+
+	if (len == 0 || len > 5)
+		return (0);
+	return (mtbl_varint_decode32(key + pos, rrtype));
+}
+
 static mtbl_res
 filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 	      const uint8_t *key, size_t len_key,
@@ -769,7 +783,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (decode_key_rrtype(key, len_key, len + 1, &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -805,7 +819,8 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (decode_key_rrtype(key, len_key, len + 1, &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -823,7 +838,7 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 {
 	struct query_iter *it = user;
 	struct dnstable_query *q = it->query;
-	size_t len, len_name;
+	size_t len, len_name, len_rrtype;
 	uint32_t rrtype;
 
 	*match = false;
@@ -833,7 +848,10 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
-	len += mtbl_varint_decode32(&key[len], &rrtype);
+	len_rrtype = decode_key_rrtype(key, len_key, len, &rrtype);
+	if (len_rrtype == 0)
+		return (mtbl_res_success);
+	len += len_rrtype;
 	if (len >= len_key)
 		return (mtbl_res_success);
 
-- 
2.43.0


From 62d76176076367047bbf4377f9711bedef0f9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 16/54] fix: do not use up the offset of the query object while
 iterating

---
 dnstable/query.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index dee8e7f..05f2b3b 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -112,6 +112,7 @@ struct query_iter {
 	/* remove_strict and possibly ljoin applied in between the time filters. */
 	struct filter_mtbl	*filter_time;
 	struct filter_mtbl	*filter_offset;
+	uint64_t		offset;		/* results still to be skipped */
 	struct {
 		uint64_t fileset_merged;
 		uint64_t fileset_files;
@@ -960,12 +961,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset > 0) {
 		*match = false;
-		q->offset--;
+		it->offset--;
 	}
 	return (mtbl_res_success);
 }
@@ -1820,6 +1820,7 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
 	if (q->offset > 0) {
+		it->offset = q->offset;
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From 3fceef526bf4bbca0acd5efb29d0284a4d7b412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 17/54] fix: only treat a name as a right wildcard if * or + is
 its whole last label

---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 05f2b3b..126c782 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1506,8 +1506,13 @@ static inline bool
 is_right_wildcard(struct dnstable_query *q)
 {
 	const wdns_name_t *name = &q->name;
+	size_t pos = 0;
 
-	if (name->len >= 3 &&
+	/* find the start of the last label */
+	while (pos + 3 < name->len && name->data[pos] != '\0')
+		pos += name->data[pos] + 1;
+
+	if (name->len >= 3 && pos == (size_t)(name->len - 3) &&
 	    name->data[name->len - 3] == '\x01' &&
 	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
 		q->dq_wildplus = name->data[name->len - 2] == '+';
-- 
2.43.0


From f06b6ade39588b1614d931f392b0a242d4f0820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 18/54] fix: allow source info queries to be created

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 126c782..7124c4e 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -167,6 +167,7 @@ dnstable_query_init(dnstable_query_type q_type)
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_IP ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW ||
 	       q_type == DNSTABLE_QUERY_TYPE_TIME_RANGE ||
+	       q_type == DNSTABLE_QUERY_TYPE_SOURCE_INFO ||
 	       q_type == DNSTABLE_QUERY_TYPE_VERSION);
 	struct dnstable_query *q = my_calloc(1, sizeof(*q));
 	q->q_type = q_type;
-- 
2.43.0


From 87aeadd6a96d97b3b7527ef59eb9742b76ba2a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 19/54] fix: forget the length of refused or cleared raw rdata

---
 dnstable/query.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 7124c4e..3421d3b 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -241,9 +241,15 @@ static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
 	my_free(q->rdata);
+	q->len_rdata = 0;
 	if (data == NULL)
 		return (dnstable_res_success);
-	return hex_decode(data, &q->rdata, &q->len_rdata);
+	if (!hex_decode(data, &q->rdata, &q->len_rdata)) {
+		q->len_rdata = 0;
+		query_set_err(q, "hex_decode() failed");
+		return (dnstable_res_failure);
+	}
+	return (dnstable_res_success);
 }
 
 static dnstable_res
-- 
2.43.0


From b54d44577f1ec925f63b0f073493cc97b0665cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 20/54] fix: explain every refused query parameter

---
 dnstable/query.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 3421d3b..fc0b8b0 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -260,9 +260,13 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	char *addr1, *addr2;
 	char *saveptr = NULL;
 
-	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL) goto out;
-	if ((addr2 = strtok_r(NULL, "-", &saveptr)) == NULL) goto out;
-	if (strtok_r(NULL, "-", &saveptr) != NULL) goto out;
+	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL ||
+	    (addr2 = strtok_r(NULL, "-", &saveptr)) == NULL ||
+	    strtok_r(NULL, "-", &saveptr) != NULL)
+	{
+		query_set_err(q, "unable to parse IP range");
+		goto out;
+	}
 
 	if (!query_load_address(q, addr1, q->ip1, &q->len_ip1)) goto out;
 	if (!query_load_address(q, addr2, q->ip2, &q->len_ip2)) goto out;
@@ -381,8 +385,10 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 		return (dnstable_res_success);
 
 	res = dnstable_entry_type_from_string(&type, data);
-	if (res != dnstable_res_success)
+	if (res != dnstable_res_success) {
+		query_set_err(q, "unknown entry type");
 		return res;
+	}
 
 	switch(type) {
 	case ENTRY_TYPE_RRSET:
@@ -393,6 +399,7 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 		q->v_type = (uint8_t)type;
 		return (dnstable_res_success);
 	default:
+		query_set_err(q, "entry type has no version");
 		return (dnstable_res_failure);
 	}
 }
@@ -411,6 +418,7 @@ dnstable_query_set_data(struct dnstable_query *q, const char *data)
 	} else if (q->q_type == DNSTABLE_QUERY_TYPE_VERSION) {
 		return query_set_version_type(q, data);
 	} else {
+		query_set_err(q, "search parameter not supported");
 		return (dnstable_res_failure);
 	}
 }
@@ -500,8 +508,10 @@ dnstable_query_set_filter_parameter(struct dnstable_query *q,
 				    const void *param,
 				    const size_t len_param)
 {
-	if (len_param != sizeof(uint64_t))
+	if (len_param != sizeof(uint64_t)) {
+		query_set_err(q, "wrong filter parameter length");
 		return (dnstable_res_failure);
+	}
 
 	switch (p_type) {
 	case DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE:
@@ -517,6 +527,7 @@ dnstable_query_set_filter_parameter(struct dnstable_query *q,
 		set_filter_parameter(q, time_last_after, param, len_param);
 		return (dnstable_res_success);
 	default:
+		query_set_err(q, "unknown filter parameter");
 		return (dnstable_res_failure);
 	}
 }
-- 
2.43.0


From 18512f8bacfc431a8cc7363467f04321ea113f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 21/54] fix: let a NULL search parameter clear the type of a
 version query

---
 dnstable/query.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index fc0b8b0..ff3c78d 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -381,8 +381,10 @@ query_set_version_type(struct dnstable_query *q, const char *data)
 	dnstable_res res;
 	dnstable_entry_type type;
 
-	if (data == NULL)
+	if (data == NULL) {
+		q->has_v_type = false;
 		return (dnstable_res_success);
+	}
 
 	res = dnstable_entry_type_from_string(&type, data);
 	if (res != dnstable_res_success) {
-- 
2.43.0


From 3916f7d7ec352a12a9d92e8b8b14e6ea7ff78794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 22/54] fix: do not crash on rrset and rdata IP queries without
 a usable search parameter

---
 dnstable/query.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index ff3c78d..a400906 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1561,6 +1561,10 @@ query_init_rrset(struct query_iter *it)
 {
 	uint8_t name[WDNS_MAXLEN_NAME];
 
+	/* no owner name has been set */
+	if (it->query->name.data == NULL)
+		return (NULL);
+
 	it->key = ubuf_init(64);
 	if (is_left_wildcard(it->query))
 		return query_init_rrset_left_wildcard(it);
@@ -1672,8 +1676,11 @@ query_init_rdata_name(struct query_iter *it)
 static struct dnstable_iter *
 query_init_rdata_ip(struct query_iter *it)
 {
-	assert(it->query->do_rrtype);
-	assert(it->query->len_ip1 > 0);
+	uint16_t rrtype = (it->query->len_ip1 == 4) ? WDNS_TYPE_A : WDNS_TYPE_AAAA;
+
+	/* no address has been set, or no address record can have the wanted rrtype */
+	if (it->query->len_ip1 == 0 || it->query->rrtype != rrtype)
+		return (NULL);
 
 	it->key = ubuf_init(64);
 
-- 
2.43.0


From e101a0198927ca5405397037321a84df262fcc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 23/54] fix: do not read an element of an empty heap

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From a82b67e0639c53c09507b13df959129d4df7eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 24/54] fix: do not read one past the base64 decoding table for
 '{'

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 42a96eea3ced09aa16ed1e9047b205f68cc52334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 25/54] fix: do not loop forever when replacing the empty
 string

---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From ae1a2aa3884f24c0cb3c115d7493bd492397ec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 26/54] fix: refuse empty and too large values of integer
 environment variables

---
 libmy/getenv_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/getenv_int.h b/libmy/getenv_int.h
index 4576116..74f9b34 100644
--- a/libmy/getenv_int.h
+++ b/libmy/getenv_int.h
@@ -1,6 +1,7 @@
 #ifndef MY_GETENV_INT_H
 #define MY_GETENV_INT_H
 
+#include <errno.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -13,8 +14,9 @@ getenv_int(const char *name, uint64_t *value) {
 	if (s == NULL)
 		return (false);
 
+	errno = 0;
 	*value = strtoul(s, &t, 0);
-	if (*t != '\0')
+	if (t == s || *t != '\0' || errno == ERANGE)
 		return (false);
 	return (true);
 }
-- 
2.43.0


From d25c024fc91e69f5ad47c6e8e63d10eda57e7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 27/54] fix: do not write outside of empty buffers when
 formatting numbers

---
 libmy/my_format.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 066cb3d..57499fa 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -37,6 +37,9 @@ my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, si
 {
 	size_t n;
 
+	if (dst_size == 0)
+		return 0;
+
 	if ((len * 2) > (dst_size - 1))
 		len = (dst_size - 1) / 2;
 
@@ -60,19 +63,24 @@ size_t
 my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 {
 	size_t ndigits = 0;
-	char *ptr = &dst[dst_size - 1];
+	char *ptr;
+
+	if (dst_size == 0) {
+		if (start != NULL)
+			*start = dst;
+		return 0;
+	}
 
-	*ptr-- = '\0';
+	ptr = &dst[dst_size - 1];
+	*ptr = '\0';
 
-	while (ptr >= dst) {
-		*ptr = '0' + num % 10;
+	while (ptr > dst) {
+		*--ptr = '0' + num % 10;
 		ndigits++;
 		num /= 10;
 
-		if (num == 0 || ptr == dst)
+		if (num == 0)
 			break;
-
-		ptr--;
 	}
 
 	if (start != NULL)
-- 
2.43.0


From cea87622c282f734c4629adc59da4e8c15649b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 28/54] fix: do not truncate seconds to int when splitting a
 double into a timespec

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index bc3afd3..64ebe99 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -80,7 +80,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ((time_t) seconds)) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From f5e3f9de37a856304c9c21a3a1ff56b07a255916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 29/54] fix: load a file only once if the set file lists it
 more than once

---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..7bc651e 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (path_exists(fname) && !has_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 49062e9eb43555dcbdb73837b993d6835ae6c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 30/54] fix: do not read on after the closing SOA record of a
 zone file

---
 libmy/zonefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..2bb6176 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -167,6 +167,7 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
+				z->eof = true;
 				return (LDNS_STATUS_OK);
 			}
 			z->count++;
-- 
2.43.0


From 515bff71926f7235d378fc71d15831cd8563545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 31/54] fix: keep the serial of a zone file after its SOA
 record was read

---
 libmy/zonefile.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2bb6176..e2c764d 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -19,6 +19,7 @@ struct zonefile {
 	ldns_rdf	*origin;
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
+	uint32_t	serial;
 	uint32_t	ttl;
 	size_t		count;
 };
@@ -27,6 +28,7 @@ static ldns_status
 read_soa(struct zonefile *z)
 {
 	ldns_rr *rr;
+	ldns_rdf *rdf;
 	ldns_status status;
 
 	for (;;) {
@@ -59,6 +61,10 @@ out:
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
+
+	rdf = ldns_rr_rdf(rr, 2);
+	assert(rdf != NULL);
+	z->serial = ldns_rdf2native_int32(rdf);
 	return (LDNS_STATUS_OK);
 }
 
@@ -131,9 +137,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From bfd7ce4193fa0131a44a17aa38f45f5a0a916eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 32/54] fix: do not leak memory when opening zone files

---
 libmy/zonefile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index e2c764d..fd5c1f2 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -59,6 +59,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin)
+		ldns_rdf_deep_free(z->origin);
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 
@@ -89,8 +91,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		free(z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From a277fbd96132b1f509697bd59bbf54f190a9ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 33/54] fix: show times without a calendar date as seconds in
 text instead of wrong years or nothing

---
 dnstable/entry.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 6e5c9fb..0a52aec 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -76,9 +76,12 @@ fmt_time(ubuf *u, uint64_t v)
 	char s[sizeof("4294967295-12-31 23:59:59 -0000")];
 	size_t len;
 
-	r = gmtime_r(&tm, &gm);
+	/* Times which have no calendar form are shown as seconds. */
+	r = (v <= INT64_MAX) ? gmtime_r(&tm, &gm) : NULL;
 	if ((r != NULL) && ((len = strftime(s, sizeof(s), "%Y-%m-%d %H:%M:%S -0000", r)) > 0))
 		ubuf_append(u, (const uint8_t*) s, len);
+	else
+		JSON_NUM_APPEND(u, v);
 }
 
 static inline void
-- 
2.43.0


From ea6909591d1087640a97229d93dda7312071bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 34/54] fix: refuse negative IP prefix lengths

---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index a400906..f01786f 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -309,7 +309,8 @@ query_set_data_rdata_ip_prefix(struct dnstable_query *q, const char *data)
 	plen = strtol(prefix_length, &endptr, 10);
 	if (errno != 0 || *endptr != '\0') goto out;
 
-	if ((len_ip == 4 && plen > 32) ||
+	if (plen < 0 ||
+	    (len_ip == 4 && plen > 32) ||
 	    (len_ip == 16 && plen > 128))
 	{
 		res = dnstable_res_failure;
-- 
2.43.0


From beaf7873b46870332ea05b9d11d4a9d6469e9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 35/54] fix: find addresses again after another rrtype was set
 and cleared

---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index f01786f..9f59b3e 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1680,8 +1680,9 @@ query_init_rdata_ip(struct query_iter *it)
 	uint16_t rrtype = (it->query->len_ip1 == 4) ? WDNS_TYPE_A : WDNS_TYPE_AAAA;
 
 	/* no address has been set, or no address record can have the wanted rrtype */
-	if (it->query->len_ip1 == 0 || it->query->rrtype != rrtype)
+	if (it->query->len_ip1 == 0 || (it->query->do_rrtype && it->query->rrtype != rrtype))
 		return (NULL);
+	it->query->rrtype = rrtype;
 
 	it->key = ubuf_init(64);
 
-- 
2.43.0


From 3019000e5f5c33ad7263af96f5e4b22a3384eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 36/54] fix: spooldir_next() must not unlink a file another
 handle has just moved

Between its check of the destination and its own rename, another handle or
process sharing the spool can have moved the same file to active/ and handed
it out; unlinking the destination then loses that file.  rename() replaces
an older file of the same name atomically by itself.
---
 libmy/spooldir.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index 6c7306d..21476d6 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -185,9 +185,8 @@ spooldir_next(struct spooldir *s)
 	ubuf_cterm(s->fname);
 
 	if (path_exists(ubuf_cstr(s->fname))) {
-		fprintf(stderr, "%s: WARNING: unlinking destination path %s\n",
+		fprintf(stderr, "%s: WARNING: replacing destination path %s\n",
 			__func__, ubuf_cstr(s->fname));
-		unlink(ubuf_cstr(s->fname));
 	}
 
 	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
-- 
2.43.0


From fcac34752716488f1f4fa10c4a97380a59692924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 37/54] fix: my_rate must not round its adjusted rate to whole
 events per second

The adjusted and the actual rate were kept as integers, so that for rates
below 100 a correction was never applied upwards, was as much as 50% downwards
(2/s became 1/s), and once rounded down never recovered.
---
 libmy/my_rate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..add7659 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -64,7 +65,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
 	double ratio;
-	unsigned actual_rate;
+	double actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
-- 
2.43.0


From 56656c35fb0400dd37bfd661da70a23486436861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 38/54] fix: my_rate_sleep() must resume a clock_nanosleep() a
 signal interrupted

The nanosleep() variant already does; here a signal made the call return
before its tick.
---
 libmy/my_rate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index add7659..4a5e17f 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -170,7 +170,8 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From 546a52f646514fc8953f912ec7fbae4a241224ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 39/54] fix: vector: appending a vector to itself read freed
 memory

name##_extend() took the second vector's data pointer before
name##_append() reserved room for it.  When both arguments are the same
vector and it has to grow, that pointer is stale by the time it is copied
from.  Reserve the room first.
---
 libmy/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/vector.h b/libmy/vector.h
index ee62fa9..acb4746 100644
--- a/libmy/vector.h
+++ b/libmy/vector.h
@@ -104,6 +104,7 @@ __attribute__((unused))							\
 static inline void							\
 name##_extend(name *vec0, name *vec1)					\
 {									\
+	name##_reserve(vec0, (vec1)->_n);				\
 	name##_append(vec0, (vec1)->_v, (vec1)->_n);			\
 }									\
 __attribute__((unused))							\
-- 
2.43.0


From 6a2254764adf465471ec56cc47da08d6a5bd61b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 40/54] fix: base32_encode() dropped the last character of a
 two byte rest

Sixteen bits need four characters of five bits (RFC 4648).  With three,
the low bit of the last byte was lost.
---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..f07c52d 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -92,7 +92,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From e219d548dc036658624472506d5fa79c610d4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 41/54] fix: base32_encode() must encode nothing to nothing

An empty input was encoded as one block of zero bytes.
---
 libmy/b32_encode.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..c46238c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -120,8 +120,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 		if (end == q) {
 			break;
 		}
-
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From 0a776562c1aa53991141336cc9d7991053b254cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 42/54] fix: base32_decode() must not make up bytes for a
 partial last block

A block of fewer than eight characters was always decoded to five bytes,
and every padding character to five bytes more, so that the decoded form
of any text that is not a multiple of eight characters long ended in
zero bytes that were never encoded.  Only emit the bytes the characters
of the block hold.
---
 libmy/b32_decode.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 5303811..81bc6d9 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -148,11 +148,13 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 			}
 		}
 
-		s[si++] = c;
+		if (0 == pad) {
+			s[si++] = c;
+		}
 
 		if (G_N_ELEMENTS(s) == si || pad > 0 || i == len) {
 			char b[5];
-			size_t bi;
+			size_t bi, nb = si * 5 / 8;
 
 			memset(&s[si], 0, G_N_ELEMENTS(s) - si);
 			si = 0;
@@ -175,7 +177,7 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 				((s[6] & 0x07) << 5) |
 				(s[7] & 0x1f);
 
-			for (bi = 0; bi < G_N_ELEMENTS(b) && q != end; bi++) {
+			for (bi = 0; bi < nb && q != end; bi++) {
 				*q++ = b[bi];
 			}
 		}
-- 
2.43.0


From 13ba3ad8701d432e7178aa8a37c4b8506107de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 43/54] fix: atomic64_zero() must return the whole 64-bit value

It returned an int, and so lost the upper half of the counter it read
and reset.
---
 libmy/atomic_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..ec61aed 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
-- 
2.43.0


From 2bfeaecc438f04d46bc2ef295217d49a74cccc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 44/54] fix: refuse a zone file holding no record instead of
 reading for ever

ldns reports an empty line at the end of the file, so zonefile_init_fname
never returned for an empty file, a file of comments only or a directory;
zonefile_read had the same loop on a read error.
---
 libmy/zonefile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index fd5c1f2..c252eeb 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -39,6 +39,11 @@ read_soa(struct zonefile *z)
 		case LDNS_STATUS_SYNTAX_EMPTY:
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
+			if (feof(z->fp) || ferror(z->fp)) {
+				/* no record in the whole file */
+				status = LDNS_STATUS_ERR;
+				goto out;
+			}
 			status = LDNS_STATUS_OK;
 			break;
 		default:
@@ -169,6 +174,8 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			z->eof = true;
 			return (LDNS_STATUS_OK);
 		}
+		if (ferror(z->fp))
+			return (LDNS_STATUS_ERR);
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From b75321e5de9b78b7ac6cb1b8fdbc3829570a3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 45/54] fix: let one argument hold any number of options that
 wait for values

The option queue was sized by the number of arguments, but "-abc" queues
up to three options and an arguments file any number of them, so the
queue was written beyond its end.
---
 libmy/argv.c | 111 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..ab24d7d 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2130,6 +2130,54 @@ static	int	check_opt(const int queue_head, const int queue_tail)
 
 /**************************** argument processing ****************************/
 
+/*
+ * static int queue_add
+ *
+ * DESCRIPTION:
+ *
+ * Add an entry waiting for its value to the option queue.  One
+ * argument can hold several such options so the queue grows as needed.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Faulure - -1
+ *
+ * ARGUMENTS:
+ *
+ * queue_list_p <-> Pointer to our option queue.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * entry_p -> Entry to add, NULL for the file argument.
+ */
+static	int	queue_add(argv_t ***queue_list_p, int *queue_head_p,
+			  argv_t *entry_p)
+{
+  argv_t	**queue_list;
+  
+  queue_list = (argv_t **)realloc(*queue_list_p,
+				  sizeof(argv_t *) * (*queue_head_p + 1));
+  if (queue_list == NULL) {
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: memory error during argument processing\n",
+		    argv_program);
+    }
+    if (argv_interactive) {
+      (void)exit(argv_error_code);
+    }
+    return ERROR;
+  }
+  queue_list[*queue_head_p] = entry_p;
+  (*queue_head_p)++;
+  *queue_list_p = queue_list;
+  
+  return NOERROR;
+}
+
 /*
  * static void file_args
  *
@@ -2150,7 +2198,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2210,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2304,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2291,7 +2339,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2348,8 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p,
+		       int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2405,9 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    if (queue_add(queue_list_p, queue_head_p, match_p) != NOERROR) {
+      *okay_bp = ARGV_FALSE;
+    }
   }
 }
 
@@ -2421,7 +2471,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2483,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2575,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2586,14 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_add(queue_list_p, queue_head_p, NULL) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2708,7 +2759,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2792,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2802,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3175,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3237,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
-
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
   
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3248,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3272,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 9d3eb2b1a34cbe8402ba29c6471e1dde595610d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 46/54] fix: do not follow the null entry of a pending
 arguments file

"--argv-file -5" looked at the type of the option waiting for a value,
which for the arguments file is a null entry of the queue.
---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index ab24d7d..ddf1121 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2757,7 +2757,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && (*queue_list_p)[*queue_tail_p] != NULL) {
 	    
 	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
-- 
2.43.0


From 0aa07e648a66f6e2991318cc21226fe997b645bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 47/54] fix: do not read beyond the end of the option table

check_or looked at the entry two after the one used before checking that
the one in between does not end the table.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index ddf1121..c9c6b24 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 2e43c8c36816bfb6c54cc5019d2b6156c2091e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 48/54] fix: accept a long option whose name begins another one

Long options may be abbreviated, and with options "name" and "names" even
the full "--name" was refused as ambiguous.
---
 libmy/argv.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index c9c6b24..f60ab43 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2543,6 +2543,19 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       
       match_p = NULL;
       
+      /* an option spelled in full is not ambiguous */
+      for (grid_p = grid; grid_p->ar_short_arg != ARGV_LAST; grid_p++) {
+	if (grid_p->ar_long_arg != NULL
+	    && strcmp(*arg_p + LONG_PREFIX_LENGTH, grid_p->ar_long_arg) == 0) {
+	  break;
+	}
+      }
+      if (grid_p->ar_short_arg != ARGV_LAST) {
+	(void)do_arg(grid, grid_p, close_p, queue_list_p, queue_head_p,
+		     okay_bp);
+	continue;
+      }
+      
       /* run though long options looking for a match */
       for (grid_p = grid; grid_p->ar_short_arg != ARGV_LAST; grid_p++) {
 	if (grid_p->ar_long_arg == NULL) {
-- 
2.43.0


From 3c0aa4797ebabeee720989209dce777043be2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 49/54] fix: compare names, not addresses, in
 argv_long_was_used

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index f60ab43..c2c4f71 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3459,7 +3459,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 74eb52ddcaac95b89ff9c8718834e0575f52534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 50/54] fix: take the upper half of the unsigned long options'
 range

ARGV_U_LONG and ARGV_U_SIZE values above LONG_MAX were cut to LONG_MAX.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index c2c4f71..fc9c3b5 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1323,7 +1323,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_LONG:
-    *(unsigned long *)var = atol(arg);
+    *(unsigned long *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_FLOAT:
@@ -1390,7 +1390,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       unsigned long	val;
       
       /* take initial integer point */
-      val = (unsigned long)atol(arg);
+      val = strtoul(arg, NULL, 10);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
-- 
2.43.0


From 65b43e19e1ecb23c729c11bfcfe7f827645ee688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 51/54] fix: dnstable_lookup: refuse times before the epoch and
 overlong relative times

A date before 1970 made timegm() return a negative number, which became a
huge unsigned bound that was silently accepted, although the manual says
that such times are not accepted.  The arithmetic on relative times such as
"99999999999999w" overflowed a signed integer (undefined behaviour), giving
arbitrary bounds instead of the refusal any other time before the epoch gets.
---
 src/dnstable_lookup.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/dnstable_lookup.c b/src/dnstable_lookup.c
index f285cff..8c21c73 100644
--- a/src/dnstable_lookup.c
+++ b/src/dnstable_lookup.c
@@ -200,10 +200,11 @@ do_dump(struct dnstable_iter *it, struct dnstable_query *q)
 static uint64_t
 parse_time(const char *s)
 {
-	long long ll, total = 0;
+	long long ll, mult, total = 0;
 	char *endp;
 	struct timespec now;
 	struct tm tt = {0};
+	time_t t;
 
 
 	/* Parse absolute ISO8601 time */
@@ -211,7 +212,10 @@ parse_time(const char *s)
 	    ((endp = strptime(s, "%F %T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%T", &tt)) && (*endp == '\0')) ||
 	    ((endp = strptime(s, "%FT%TZ", &tt)) && (*endp == '\0'))) {
-		return (uint64_t)timegm(&tt);
+		t = timegm(&tt);
+		if (t <= 0)
+			return 0;
+		return (uint64_t)t;
 	}
 
 	clock_gettime(CLOCK_REALTIME, &now);
@@ -232,19 +236,20 @@ parse_time(const char *s)
 		ll = strtoll(s, &endp, 10);
 		if (ll <= 0)
 			return 0;
+		mult = 1;
 		switch(*endp) {
 		case 'W':
 		case 'w':
-			ll *= 7;
+			mult *= 7;
 		case 'D':
 		case 'd':
-			ll *= 24;
+			mult *= 24;
 		case 'H':
 		case 'h':
-			ll *= 60;
+			mult *= 60;
 		case 'M':
 		case 'm':
-			ll *= 60;
+			mult *= 60;
 		case 'S':
 		case 's':
 		case '\0':
@@ -252,12 +257,12 @@ parse_time(const char *s)
 		default:
 			return 0;
 		}
-		total += ll;
+		if (ll > (now.tv_sec - total) / mult)
+			return 0;
+		total += ll * mult;
 		s = endp;
 		if (*s) s++;
 	}
-	if (total > now.tv_sec)
-		return 0;
 	return (uint64_t)(now.tv_sec - total);
 }
 
-- 
2.43.0


From 31ce8ac7e74bb5cbe6613315d1148378bccb5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 52/54] fix: let a query's time limit be taken away while its
 iterator runs

Whether an iterator arms its deadline was decided from the query, but the
jump buffer's use was decided when the iterator was made: clearing the
timeout of a query in between left the callback jumping into a frame that
had returned.  An iterator made with a limit keeps its own deadline state;
with no limit on the query it simply never comes due.
---
 dnstable/query.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 9f59b3e..731478e 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1000,6 +1000,13 @@ query_iter_set_deadline(struct query_iter *it)
 {
 	struct dnstable_query *q = it->query;
 
+	if (!q->do_timeout && !q->do_deadline) {
+		/* The limits were removed after the iterator was created. */
+		it->deadline.tv_sec = LONG_MAX;
+		it->deadline.tv_nsec = 0;
+		return;
+	}
+
 	if (!q->do_timeout) {
 		it->deadline = q->deadline;
 		return;
@@ -1018,7 +1025,7 @@ query_iter_next(void *clos, struct dnstable_entry **ent)
 	struct query_iter *it = (struct query_iter *) clos;
 	struct dnstable_query *q = it->query;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
@@ -1376,7 +1383,7 @@ query_iter_next_name_indirect(void *clos, struct dnstable_entry **ent, uint8_t t
 	const uint8_t *key, *val;
 	size_t len_key, len_val;
 
-	if (q->do_timeout || q->do_deadline) {
+	if (it->timeout != NULL) {
 		query_iter_set_deadline(it);
 		if (setjmp(it->to_env) != 0)
 			return (dnstable_res_timeout);
-- 
2.43.0


From 9f175354c662545c230eb225d70dbb0154adb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 53/54] fix: dnstable_merge: pass file names on unsplit

An unquoted $@ was split at blanks and expanded as patterns, so tables whose
names contain either were not found, and others could be read in their place.
---
 src/dnstable_merge.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnstable_merge.sh.in b/src/dnstable_merge.sh.in
index 7df27e8..910144f 100644
--- a/src/dnstable_merge.sh.in
+++ b/src/dnstable_merge.sh.in
@@ -8,4 +8,4 @@ if [ -z "$1" -o -z "$2" ]; then
     exit 1
 fi
 
-exec mtbl_merge $@
+exec mtbl_merge "$@"
-- 
2.43.0


From f35e33728742d01e89d791c2d620292e802a74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 54/54] fix: zonefile: quote the name of a compressed file for
 the shell

The name was put into the zcat command as it is, so a name with blanks was
not found and one with other special characters was run as commands.
---
 libmy/zonefile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index c252eeb..13d6b90 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -87,8 +87,15 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		/* Quoted: the name may hold characters special to the shell. */
+		ubuf_add_cstr(u, "zcat <'");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0

