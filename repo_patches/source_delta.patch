From aaf0eedbd8e24f2599c50e651d411c10091cd77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 01/62] fix: do not read past the end of the message in
 wdns_unpack_name

A label ending exactly at the end of the buffer, or a compression pointer
with only its first octet inside it, made the decompressor read one octet
beyond the buffer.
---
 wdns/unpack_name.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..5e0c018 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -34,18 +34,18 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		 uint8_t *dst, size_t *sz)
 {
 	const uint8_t *cptr;
-	uint8_t c;
+	uint8_t c = 1;
 
 	size_t total_len = 0;
 
 	if (p >= eop || src >= eop || src < p)
 		return (wdns_res_out_of_bounds);
 
-	while ((c = *src++) != 0) {
+	while (src < eop && (c = *src++) != 0) {
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -85,6 +85,9 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			return (wdns_res_invalid_length_octet);
 		}
 	}
+	if (c != 0)
+		return (wdns_res_out_of_bounds);
+
 	*dst = '\0';
 	total_len++;
 
-- 
2.43.0


From 9b1107a692f594c2b07ca9835b25c237f9a1316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 02/62] fix: do not read past the end of the message in
 wdns_copy_uname

---
 wdns/copy_uname.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..4a3a773 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -33,14 +33,14 @@ wdns_res
 wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		uint8_t *dst, size_t *sz)
 {
-	uint8_t c;
+	uint8_t c = 1;
 
 	size_t total_len = 0;
 
 	if (p >= eop || src >= eop || src < p)
 		return (wdns_res_out_of_bounds);
 
-	while ((c = *src++) != 0) {
+	while (src < eop && (c = *src++) != 0) {
 		if (c <= 63) {
 			total_len++;
 			if (total_len >= WDNS_MAXLEN_NAME)
@@ -60,6 +60,9 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			return (wdns_res_invalid_length_octet);
 		}
 	}
+	if (c != 0)
+		return (wdns_res_out_of_bounds);
+
 	*dst = '\0';
 	total_len++;
 
-- 
2.43.0


From 48f52fbd1744956ecb37675d27be7d5c6967a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 03/62] fix: do not read the octet after the buffer in
 wdns_skip_name

---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 1f875ba0c183dab8b88137e70f6857a25fde09ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 04/62] fix: reject unterminated names in wdns_len_uname

A name whose last label ends exactly at the end of the buffer was reported
as one octet longer than the buffer, which made wdns_rdata_to_str read
beyond the record data.
---
 wdns/len_uname.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..d4121f2 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -42,14 +42,16 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 
 		if (oclen > 63 || oclen > len)
 			return (wdns_res_invalid_length_octet);
-		if (oclen == 0)
-			break;
+		if (oclen == 0) {
+			*sz = olen - len;
+			if (*sz > WDNS_MAXLEN_NAME)
+				return (wdns_res_name_len);
+			return (wdns_res_success);
+		}
 
 		WDNS_BUF_ADVANCE(p, len, oclen);
 	}
 
-	*sz = olen - len;
-	if (*sz > WDNS_MAXLEN_NAME)
-		return (wdns_res_name_len);
-	return (wdns_res_success);
+	/* no terminating zero-length label in the buffer */
+	return (wdns_res_overflow);
 }
-- 
2.43.0


From 874f7ca1474735fc54d7ef2136826bf32b4172f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 05/62] fix: do not read past the end of an unterminated name
 in wdns_count_labels

---
 wdns/count_labels.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..8124539 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -28,12 +28,12 @@
 wdns_res
 wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 {
-	uint8_t c, *data;
+	uint8_t c = 1, *data;
 
 	*nlabels = 0;
 	data = name->data;
 
-	while ((c = *data++) != 0) {
+	while (data - name->data < name->len && (c = *data++) != 0) {
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
@@ -44,5 +44,9 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 		}
 	}
 
+	/* no terminating zero-length label within the name */
+	if (c != 0)
+		return (wdns_res_name_overflow);
+
 	return (wdns_res_success);
 }
-- 
2.43.0


From 085a689aea35f9eb201f77fb95966eec78dd57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 06/62] fix: do not read past the given length in
 wdns_domain_to_str

---
 wdns/domain_to_str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..ff177c5 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,7 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
+	oclen = (src_len > 0) ? *src : 0;
 	while (bytes_remaining > 0 && oclen != 0) {
 		src++;
 		bytes_remaining--;
@@ -55,7 +55,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
+		oclen = (bytes_remaining > 0) ? *src : 0;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From 95f545975805533455ab81ca33c00538ecc2d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 07/62] fix: reject unterminated names in wdns_reverse_name

A name filling the buffer without its terminating zero octet made the
function write before the output buffer and read past the input.
---
 wdns/reverse_name.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..249d49b 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -20,6 +20,9 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	size_t len;
 	size_t total_len = 0;
 
+	if (len_name == 0)
+		return (wdns_res_out_of_bounds);
+
 	p = name;
 	memset(rev_name, 0, len_name);
 	rev_name += len_name - 1;
@@ -27,7 +30,7 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	while ((len = *p) != '\x00') {
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From 166f0acdc97630b7e293868e73b5052252186f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 08/62] fix: reject a name text that ends in a backslash

---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From fb41970407dfdddfaa414d0a7edc3f384e2d8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 09/62] fix: reject name text with labels longer than 63 octets

---
 wdns/str_to_name.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..ff8ad71 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -55,7 +55,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				res = wdns_res_name_overflow;
 				goto out;
 			}
-			*oclen = --label_len;
+			if (--label_len > 63)
+				goto out;
+			*oclen = label_len;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -110,9 +112,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			goto out;
 		} else if (c == '.') {
 			/* end of label */
-			*oclen = --label_len;
-			if (label_len == 0)
+			if (--label_len == 0 || label_len > 63)
 				goto out;
+			*oclen = label_len;
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From fbc6ec7f5fe4667254caba94a8ebaa930befa9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 10/62] fix: do not dereference the absent data of a question
 RRset when printing it

---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..f9d5aa5 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		rr.rdata = (sec == WDNS_MSG_SEC_QUESTION) ? NULL : rrset->rdatas[i];
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 6c6b109bc043e543dbba75fc82535be2f46cd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 11/62] fix: do not wrap the length of a service parameter when
 parsing it

---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..77ee198 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				int kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From 02911d839309d853a871b36ae1493bd180827b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 12/62] fix: reject record data that exceeds 65535 octets once
 its names are expanded

---
 wdns/parse_rdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 77ee198..5cf7669 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,10 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From f89caf6f3ab554a031042891a3706bbf7f18eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 13/62] fix: find the end of a name by its labels in
 wdns_downcase_rdata

---
 wdns/downcase_rdata.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..019c0f8 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -28,6 +28,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 	const record_descr *descr;
 	const uint8_t *t;
 	size_t bytes_remaining = rdata->len;
+	size_t len;
 	uint8_t oclen;
 	uint8_t *p = rdata->data;
 
@@ -79,15 +80,13 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
-						break;
-					}
-					if (*p >= 'A' && *p <= 'Z')
-						*p |= 0x20;
-					p++;
+				if (wdns_len_uname(p, p + bytes_remaining, &len) != wdns_res_success)
+					return (wdns_res_parse_error);
+				for (size_t i = 0; i < len; i++) {
+					if (p[i] >= 'A' && p[i] <= 'Z')
+						p[i] |= 0x20;
 				}
+				advance_bytes(len);
 				break;
 
 			case rdf_repstring:
-- 
2.43.0


From 6aa7fc33a345fc96bec753991097d2ca14b788c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 14/62] fix: read the A6 prefix length as a bit count in
 wdns_downcase_rdata

---
 wdns/downcase_rdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 019c0f8..fa0d6b5 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -131,8 +131,10 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
+				/* octets of the address suffix */
+				oclen = (128U - oclen + 7U) / 8U;
 				advance_bytes(oclen + 1U);
 				break;
 
-- 
2.43.0


From 445ad3032da1b9109fe9d16395c722af47fe03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 15/62] fix: allocate enough room for the base64 text of a
 single octet

---
 wdns/rdata_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index da20ecd..46bea05 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -69,7 +69,7 @@ bytes_to_ubuf_base64(uint8_t *src, uint16_t src_len, ubuf *u)
 	base64_encodestate b64;
 
 	base64_init_encodestate(&b64);
-	buf = malloc(2 * src_len + 1);
+	buf = malloc(4 * ((src_len + 2) / 3) + 1);
 
 	len = base64_encode_block((const char *)src, src_len, buf, &b64);
 	ubuf_append(u, (uint8_t *)buf, len);
-- 
2.43.0


From 460465c42520275570de43d6bd6c9cb6242be640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 16/62] fix: mark a type bitmap that ends inside a window
 header as a parse error

---
 wdns/rdata_to_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index 46bea05..1e07343 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -664,8 +664,8 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 			uint16_t my_rrtype, lo;
 			uint8_t a, b, window_block, bitmap_len;
 
-			bytes_required(2);
-			while (src_bytes >= 2) {
+			while (src_bytes > 0) {
+				bytes_required(2);
 				window_block = *src;
 				bitmap_len = *(src + 1);
 				bytes_consumed(2);
-- 
2.43.0


From 2325665efbb17e52873fc2084831163cf4bd4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 17/62] fix: do not take a question of type OPT for an OPT
 record

---
 wdns/parse_message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_message.c b/wdns/parse_message.c
index c76780e..863acbd 100644
--- a/wdns/parse_message.c
+++ b/wdns/parse_message.c
@@ -56,7 +56,8 @@ wdns_parse_message(wdns_message_t *m, const uint8_t *pkt, size_t len)
 			 * the DNS header and treat all subsequent ones as
 			 * ordinary resource records.
 			 */
-			if (rr.rrtype == WDNS_TYPE_OPT && !m->edns.present) {
+			if (sec != WDNS_MSG_SEC_QUESTION &&
+			    rr.rrtype == WDNS_TYPE_OPT && !m->edns.present) {
 				res = _wdns_parse_edns(m, &rr);
 				if (res != wdns_res_success)
 					goto err;
-- 
2.43.0


From 92b7c5adae9a4a5e1e81c20ca90f785b2655723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 18/62] fix: handle long lines and NUL octets in
 wdns_file_load_names

---
 wdns/file_load_names.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..3a79b9e 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -18,7 +18,9 @@ wdns_res
 wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 {
 	FILE *fp;
-	char line[1280];
+	char *line = NULL;
+	size_t sz = 0;
+	ssize_t len;
 	wdns_res res;
 	wdns_name_t name;
 
@@ -27,19 +29,23 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		return (wdns_res_failure);
 
 	res = wdns_res_success;
-	memset(line, 0, sizeof(line));
 
-	while (fgets(line, sizeof(line), fp) != NULL) {
+	while ((len = getline(&line, &sz, fp)) > 0) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
-			line[strlen(line) - 1] = '\0';
+		if (line[len - 1] == '\n')
+			line[--len] = '\0';
+		if (strlen(line) != (size_t) len) {
+			res = wdns_res_parse_error;
+			break;
+		}
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
 			break;
 		cb(&name, user);
 	}
 
+	free(line);
 	fclose(fp);
 	return (res);
 }
-- 
2.43.0


From 8f36f284af4839936fc86f9501c02171e91eea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 19/62] fix: require digits after TYPE and CLASS in generic
 type and class names

---
 wdns/gen_rrclass_to_str | 2 ++
 wdns/gen_rrtype_to_str  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wdns/gen_rrclass_to_str b/wdns/gen_rrclass_to_str
index 8f1953a..61fc2b4 100755
--- a/wdns/gen_rrclass_to_str
+++ b/wdns/gen_rrclass_to_str
@@ -98,6 +98,8 @@ convert_generic_rrclass(const char *s, long int *val) {
         return (false);
 
     s += 5; /* skip leading "CLASS" */
+    if (!isdigit((unsigned char) *s))
+        return (false);
 
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
diff --git a/wdns/gen_rrtype_to_str b/wdns/gen_rrtype_to_str
index b005a20..8e0bfec 100755
--- a/wdns/gen_rrtype_to_str
+++ b/wdns/gen_rrtype_to_str
@@ -96,6 +96,8 @@ convert_generic_rrtype(const char *s, long int *val) {
         return (false);
 
     s += 4; /* skip leading "TYPE" */
+    if (!isdigit((unsigned char) *s))
+        return (false);
 
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
-- 
2.43.0


From 39e6cc0b0a4c3ad948e228c23886488254fc4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 20/62] fix: do not read past the table in base64_decode_value

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 6ea3c370041a7ce870e57e35f48bfb9df8f95790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 21/62] fix: encode an empty input as empty text in
 base32_encode

---
 libmy/b32_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..b7bd41c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -121,7 +121,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			break;
 		}
 
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From ab537ad2a17af7bc40738d5922f9e1d95c7b7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 22/62] fix: return NULL from heap_get on an empty heap

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index 1d8f7ee..a28cdcf 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -146,7 +146,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From cfc071d695e9818fce710dab766297615a7111b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 23/62] fix: compute the bounds of an IPv4 prefix of length 0

---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..bb4812a 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32((uint32_t) ~((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32((uint32_t) ((1ULL << (32 - prefix_len)) - 1));
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From 243bbcfcd9dfccc89b65f4deefc3f91dc28cf440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 24/62] fix: load a member listed twice in a file set once

---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..79c9cef 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (!has_entry(new_entries, fname) && path_exists(fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 80ba1076244dab171555fdca242109cee5cb797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 25/62] fix: place the extended response code above the
 header's four bits

---
 wdns/parse_edns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..a5233fb 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,7 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	m->rcode |= (rr->rrttl >> 20) & 0xFF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From 606d21fa9400bbed7a43a80286662df549e498f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 26/62] fix: count every alpn id when reading svcparam text

The length octet was kept modulo 256, and an empty last id was written
without being counted in the value's length.
---
 wdns/str_to_rdata_ubuf.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..65785ff 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -272,13 +272,13 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 * in presentation format, as escaped spaces and commas are allowed.
 	 */
 	case spr_alpn: {
-		size_t i, offset;
-		uint8_t oclen;
+		const uint8_t zero = 0;
+		size_t i, offset, oclen;
 
 		/* append a 'length' byte to be updated later */
 		offset = ubuf_size(u);
 		oclen = 0;
-		ubuf_append(u, &oclen, sizeof (uint8_t));
+		ubuf_append(u, &zero, sizeof (uint8_t));
 
 		/*
 		 * Parse the resulting string for escaped commas and
@@ -305,22 +305,26 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 				/*
 				 * An unescaped comma separates two values.
 				 */
-				ubuf_data(u)[offset] = oclen;
+				if (oclen > UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
+				ubuf_data(u)[offset] = (uint8_t)oclen;
 				val_len += oclen + sizeof (uint8_t);
 
 				offset = ubuf_size(u);
 				oclen = 0;
-				ubuf_append(u, &oclen, sizeof (uint8_t));
+				ubuf_append(u, &zero, sizeof (uint8_t));
 			} else {
 				ubuf_append(u, (uint8_t *)&c, 1);
 				oclen++;
 			}
 		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+		if (oclen > UINT8_MAX) {
+			return (wdns_res_parse_error);
 		}
+		ubuf_data(u)[offset] = (uint8_t)oclen;
+		val_len += oclen + sizeof (uint8_t);
 
 		break;
 	}
-- 
2.43.0


From 22cd3b0fb53cd2c4b717450da39da10fa185b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 27/62] fix: refuse svcparam values longer than 65535 octets

Their length was written modulo 65536.
---
 wdns/str_to_rdata_ubuf.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 65785ff..5eff362 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -141,8 +141,8 @@ static wdns_res
 str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 {
 	char *tok, *endp = NULL;
-	size_t val_len_offset, tok_len;
-	uint16_t val_len = 0, tmp;
+	size_t val_len_offset, tok_len, val_len = 0;
+	uint16_t wire_len = 0, tmp;
 
 	assert(u != NULL);
 	assert(key != spr_invalid);
@@ -160,7 +160,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		if (val != NULL) {
 			return (wdns_res_parse_error);
 		} else {
-			ubuf_append(u, (uint8_t *)&val_len, sizeof(val_len));
+			ubuf_append(u, (uint8_t *)&wire_len, sizeof(wire_len));
 			return (wdns_res_success);
 		}
 	}
@@ -171,7 +171,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 * once we know the length of the value.
 	 */
 	val_len_offset = ubuf_size(u);
-	ubuf_append(u, (uint8_t*)&val_len, sizeof(val_len));
+	ubuf_append(u, (uint8_t*)&wire_len, sizeof(wire_len));
 
 	/*
 	 * Let's parse the value(s) now.
@@ -337,9 +337,12 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	/*
 	 * Set the correct length for the SvcParamValue.
 	 */
-	val_len = htons(val_len);
-	(void) memcpy(&ubuf_data(u)[val_len_offset], &val_len,
-	    sizeof (val_len));
+	if (val_len > UINT16_MAX) {
+		return (wdns_res_parse_error);
+	}
+	wire_len = htons((uint16_t)val_len);
+	(void) memcpy(&ubuf_data(u)[val_len_offset], &wire_len,
+	    sizeof (wire_len));
 
 	return (wdns_res_success);
 }
-- 
2.43.0


From 14593a3a282edc04e1434c3963b4e832fa965301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 28/62] fix: read ech values longer than 255 base64 characters

wdns prints them, but refused to read them back.
---
 wdns/str_to_rdata_ubuf.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 5eff362..6e62fab 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -228,9 +228,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		}
 
 		tok_len = strlen(tok);
-		if (tok_len > UINT8_MAX) {
-			return (wdns_res_parse_error);
-		}
 		val_len = base64_str_to_ubuf(tok, tok_len, u);
 		break;
 
-- 
2.43.0


From 00288d879c20c7963c73693fd6596621f5856bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 29/62] fix: read the whole text of an svcparam value

Text after an octet 0 or, for port and ech, after a blank was ignored.
---
 wdns/str_to_rdata_ubuf.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 6e62fab..d8e707b 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -141,7 +141,7 @@ static wdns_res
 str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 {
 	char *tok, *endp = NULL;
-	size_t val_len_offset, tok_len, val_len = 0;
+	size_t val_len_offset, val_len = 0;
 	uint16_t wire_len = 0, tmp;
 
 	assert(u != NULL);
@@ -173,6 +173,16 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	val_len_offset = ubuf_size(u);
 	ubuf_append(u, (uint8_t*)&wire_len, sizeof(wire_len));
 
+	/*
+	 * These values are parsed as C strings.
+	 */
+	if ((key == spr_mandatory || key == spr_port || key == spr_ech ||
+	     key == spr_ipv4hint || key == spr_ipv6hint) &&
+	    strlen(val) != len_val)
+	{
+		return (wdns_res_parse_error);
+	}
+
 	/*
 	 * Let's parse the value(s) now.
 	 */
@@ -202,12 +212,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * The wire format of the SvcParamValue is the corresponding
 		 * 2 octet numeric value in network byte order.
 		 */
-		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
+		if (!isdigit((unsigned char)*val)) {
 			return (wdns_res_parse_error);
 		}
 
-		tmpul = strtoul(tok, &endport, 10);
+		tmpul = strtoul(val, &endport, 10);
 		if (*endport != '\0' || tmpul > UINT16_MAX) {
 			return (wdns_res_parse_error);
 		}
@@ -222,13 +231,11 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * In wire format, the value of the parameter is an
 		 * ECHConfigList [ECH], including the redundant length prefix.
 		 */
-		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
+		if (len_val == 0) {
 			return (wdns_res_parse_error);
 		}
 
-		tok_len = strlen(tok);
-		val_len = base64_str_to_ubuf(tok, tok_len, u);
+		val_len = base64_str_to_ubuf(val, len_val, u);
 		break;
 
 	/*
-- 
2.43.0


From 454d6d55dc019012fc533713ac7571bc3d071fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 30/62] fix: refuse empty items in svcparam lists

strtok_r() skips them.
---
 wdns/str_to_rdata_ubuf.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index d8e707b..7e06087 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -140,7 +140,7 @@ str_to_ubuf(const char *str, ubuf *u, const char **retp)
 static wdns_res
 str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 {
-	char *tok, *endp = NULL;
+	char *tok;
 	size_t val_len_offset, val_len = 0;
 	uint16_t wire_len = 0, tmp;
 
@@ -188,12 +188,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 */
 	switch (key) {
 	case spr_mandatory:
-		tok = strtok_r(val, ",", &endp);
-		if (tok == NULL || *tok == '\0') {
-			return (wdns_res_parse_error);
-		}
-
-		do {
+		while ((tok = strsep(&val, ",")) != NULL) {
 			tmp = _wdns_str_to_svcparamkey(tok);
 			if (tmp == spr_invalid) {
 				return (wdns_res_parse_error);
@@ -201,7 +196,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 			tmp = htons(tmp);
 			ubuf_append(u, (uint8_t *)&tmp, sizeof (tmp));
 			val_len += sizeof(tmp);
-		} while ((tok = strtok_r(NULL, ",", &endp)) != NULL);
+		}
 		break;
 
 	case spr_port: {
@@ -248,19 +243,14 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		int af = (key == spr_ipv4hint ? AF_INET : AF_INET6);
 		size_t sz = (key == spr_ipv4hint ? 4 : 16);
 
-		tok = strtok_r(val, ",", &endp);
-		if (tok == NULL || *tok == '\0') {
-			return (wdns_res_parse_error);
-		}
-
-		do {
+		while ((tok = strsep(&val, ",")) != NULL) {
 			if (inet_pton(af, tok, buf) != 1) {
 				return (wdns_res_parse_error);
 			}
 
 			ubuf_append(u, (uint8_t *)buf, sz);
 			val_len += sz;
-		} while ((tok = strtok_r(NULL, ",", &endp)) != NULL);
+		}
 		break;
 	}
 	/*
-- 
2.43.0


From d6ff80f4ed7cdd9ab1fcf4b2b07f6e865dffa84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 31/62] fix: take any blank between svcparams

---
 wdns/str_to_rdata_ubuf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 7e06087..459b8a8 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -952,7 +952,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				size_t orig_size, len_dup, orig_offset;
 
 				/* find out what key we're parsing */
-				if (*start == ' ') {
+				if (isspace((unsigned char)*start)) {
 					start++;
 					continue;
 				}
@@ -968,7 +968,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				 *    key doesn't require one).
 				 */
 				while (val != eol) {
-					if (*val == '=' || *val == ' ') {
+					if (*val == '=' || isspace((unsigned char)*val)) {
 						break;
 					}
 					val++;
@@ -989,7 +989,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					goto err;
 				}
 
-				if (*val == ' ' || val == eol) {
+				if (isspace((unsigned char)*val) || val == eol) {
 					if (k != spr_nd_alpn) {
 						res = wdns_res_parse_error;
 						goto err;
-- 
2.43.0


From d8fbbdf59d1ef81334863e2145e997a06b08143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 32/62] fix: take only digits after key in svcparam keys

strtoul() also takes blanks and a sign.
---
 wdns/svcparamkeys_to_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/svcparamkeys_to_str.c b/wdns/svcparamkeys_to_str.c
index 1fca8ef..3de4771 100644
--- a/wdns/svcparamkeys_to_str.c
+++ b/wdns/svcparamkeys_to_str.c
@@ -71,7 +71,7 @@ _wdns_str_to_svcparamkey(char *str)
 		return (spr_ipv4hint);
 	} else if (strcmp(str, "ipv6hint") == 0) {
 		return (spr_ipv6hint);
-	} else if (strncmp(str, "key", 3) == 0 && strlen(str) > 3) {
+	} else if (strncmp(str, "key", 3) == 0 && isdigit((unsigned char)str[3])) {
 		/* parse an arbitrary key */
 		unsigned long int key;
 		char *endp;
-- 
2.43.0


From 49a8012052439dfa5cafab0dd77e11ec723daaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 33/62] fix: refuse text longer than 65535 octets in generic
 rdata, and no length

---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 459b8a8..a9f49e0 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -385,8 +385,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		unsigned long rdlen;
+		if (sscanf(str, "%lu", &rdlen) != 1 || rdlen > UINT16_MAX) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From c9e4e632cb1d5bd1221fa268425c7a72ff1510bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 34/62] fix: refuse A6 prefix lengths above 255

They were read modulo 256.
---
 wdns/str_to_rdata_ubuf.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index a9f49e0..1ae4231 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -510,6 +510,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 		case rdf_ipv6prefix: {
 			uint8_t prefix_len;
+			unsigned long val;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
 
@@ -524,15 +525,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
-				res = wdns_res_parse_error;
-				goto err;
-			}
-
-			if (prefix_len > 128) {
+			if (sscanf(str, "%lu", &val) != 1 || val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
+			prefix_len = (uint8_t)val;
 
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
-- 
2.43.0


From cb3bffa16a5bcafc3925b9e752b117e86b46fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 35/62] fix: take only hex digits as hex

sscanf() skips blanks and takes a sign, a 0x prefix or a single digit, and
at the end of the text it leaves the previous octet in place.
---
 wdns/str_to_rdata_ubuf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 1ae4231..1172666 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -401,7 +401,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				continue;
 			}
 
-			if (*(str+1) == 0) {
+			if (!isxdigit((unsigned char)str[0]) ||
+			    !isxdigit((unsigned char)str[1]))
+			{
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -474,7 +476,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		case rdf_bytes:
 			while (*str) {
 				uint8_t c;
-				if (*(str+1) == 0) {
+				if (!isxdigit((unsigned char)str[0]) ||
+				    !isxdigit((unsigned char)str[1]))
+				{
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -612,6 +616,12 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
+					if (!isxdigit((unsigned char)str[0]) ||
+					    !isxdigit((unsigned char)str[1]))
+					{
+						res = wdns_res_parse_error;
+						goto err;
+					}
 					if (!sscanf(str, "%02hhx", &c)) {
 						res = wdns_res_parse_error;
 						goto err;
-- 
2.43.0


From cabb99d4b3c0067b47023b415aec247f4402fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 36/62] fix: refuse text after the closing quote of a text
 field

---
 wdns/str_to_rdata_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 1172666..7d72430 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -500,7 +500,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			size_t str_len = strlen(str);
 
 			if (str_len >= 3 && str[0] == '"' && str[str_len - 1] == '"') {
-				if (rdata_from_str_string((const uint8_t *)str, u) == 0) {
+				if (rdata_from_str_string((const uint8_t *)str, u) != str_len) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
-- 
2.43.0


From 715f8dba9fba5d2400ba617a1311bc457ea905ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 37/62] fix: read back the TYPE0 that is printed for a type
 field

---
 wdns/str_to_rdata_ubuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 7d72430..22882c7 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -929,9 +929,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				s_rrtype = strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
+			bool is_type = (my_rrtype > 0 || strcasecmp(s_rrtype, "TYPE0") == 0);
 			free(s_rrtype);
 
-			if (my_rrtype > 0) {
+			if (is_type) {
 				ubuf_append(u, (const uint8_t*)&my_rrtype, sizeof(my_rrtype));
 			} else {
 				res = wdns_res_parse_error;
-- 
2.43.0


From 67a9996aa1103d149de3a594e57f1e5d4838be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 38/62] fix: refuse text left over after the last rdata field

---
 wdns/str_to_rdata_ubuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 22882c7..ae945ae 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -492,7 +492,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			break;
 
 		case rdf_bytes_b64: {
-			str += base64_str_to_ubuf(str, strlen(str), u);
+			base64_str_to_ubuf(str, strlen(str), u);
+			str += strlen(str);
 			break;
 		}
 
@@ -1044,6 +1045,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				start = end;
 			}
 
+			str = eol;
 			break;
 		}
 
@@ -1140,6 +1142,14 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		} /* switch */
 	}
 
+	while (str != NULL && isspace(*str)) {
+		str++;
+	}
+	if (str != NULL && *str != '\0') {
+		res = wdns_res_parse_error;
+		goto err;
+	}
+
 	return wdns_res_success;
 
 err:
-- 
2.43.0


From b3287f650ffe12c01c93ea43354844607097bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 39/62] fix: refuse an NSEC3 hash that is not base32

---
 wdns/str_to_rdata_ubuf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index ae945ae..e0e3b9c 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -653,6 +653,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			 */
 			if (str_len == 1) {
 				uint8_t c = 0;
+				char d;
+				if (base32_decode(&d, 1, str, 1) != 0) {
+					res = wdns_res_parse_error;
+					goto err;
+				}
 				ubuf_append(u, &c, 1);
 				str++;
 				break;
-- 
2.43.0


From 203a7c8cd172fd709e485c4b6418500a1cc0ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 40/62] fix: refuse text of more than 65535 octets of rdata

No record can hold it.
---
 wdns/str_to_rdata_ubuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index e0e3b9c..4a0c82c 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -1154,6 +1154,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		res = wdns_res_parse_error;
 		goto err;
 	}
+	if (ubuf_size(u) - u_orig_size > UINT16_MAX) {
+		res = wdns_res_parse_error;
+		goto err;
+	}
 
 	return wdns_res_success;
 
-- 
2.43.0


From 2549d84e5df7e401fe9f5a4daf6cb6b90d69c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 41/62] fix: compute queue element offsets as size_t

With a data array of 4 GiB or more they wrapped, and elements were
overwritten.
---
 libmy/my_queue_mb.c    | 4 ++--
 libmy/my_queue_mutex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/my_queue_mb.c b/libmy/my_queue_mb.c
index ff08312..3df1edd 100644
--- a/libmy/my_queue_mb.c
+++ b/libmy/my_queue_mb.c
@@ -100,7 +100,7 @@ my_queue_mb_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = MY_ACCESS_ONCE(q->tail);
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t)head * q->sizeof_elem], item, q->sizeof_elem);
 		smp_wmb();
 		q->head = (head + 1) & (q->num_elems - 1);
 		smp_wmb();
@@ -120,7 +120,7 @@ my_queue_mb_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t)tail * q->sizeof_elem], q->sizeof_elem);
 		smp_mb();
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
diff --git a/libmy/my_queue_mutex.c b/libmy/my_queue_mutex.c
index b8572ec..7852ae3 100644
--- a/libmy/my_queue_mutex.c
+++ b/libmy/my_queue_mutex.c
@@ -121,7 +121,7 @@ my_queue_mutex_insert(struct my_queue *q, void *item, unsigned *pspace)
 	unsigned tail = q->tail;
 	unsigned space = q_space(head, tail, q->num_elems);
 	if (space >= 1) {
-		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
+		memcpy(&q->data[(size_t)head * q->sizeof_elem], item, q->sizeof_elem);
 		q->head = (head + 1) & (q->num_elems - 1);
 		res = true;
 		space--;
@@ -141,7 +141,7 @@ my_queue_mutex_remove(struct my_queue *q, void *item, unsigned *pcount)
 	unsigned tail = q->tail;
 	unsigned count = q_count(head, tail, q->num_elems);
 	if (count >= 1) {
-		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);
+		memcpy(item, &q->data[(size_t)tail * q->sizeof_elem], q->sizeof_elem);
 		q->tail = (tail + 1) & (q->num_elems - 1);
 		res = true;
 		count--;
-- 
2.43.0


From a881b57e8ee913837963627710b2949aabee3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 42/62] fix: atomic64_zero returns the whole 64-bit value it
 cleared

---
 libmy/atomic_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..ec61aed 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
-- 
2.43.0


From cbe78d230efcbc787b8cd407c1fe74b319b5b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 43/62] fix: my_timespec_from_double keeps the fraction of
 times past 2^31 seconds

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index 4fa9281..bc9e7c2 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -59,7 +59,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ((time_t) seconds)) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From a79bc2de77effb64b2a848ad5bc0a3dfb15eed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 44/62] fix: an interrupted wait of the rate limiter goes on
 until its tick

---
 libmy/my_rate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..01fe703 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -169,7 +169,8 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL) == EINTR)
+			;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From e5615e066adfc07796a5c8266a895913c41490c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:39 +0000
Subject: [PATCH 45/62] fix: the adjusted rate of a rate limiter keeps its
 fraction

Held in an unsigned, a rate below 100 could only ever be adjusted down, and a
rate of 1 became 0: the limiter then waited no more.
---
 libmy/my_rate.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 01fe703..8e5c10b 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,8 +64,7 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double actual_rate, ratio;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -76,7 +76,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -88,7 +88,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	r->adj_rate *= ratio;
 
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From 772f990609253e5d2ef030a3c2ea42240cbdc9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 46/62] fix: look again for a set file update that could not be
 opened

---
 libmy/my_fileset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 79c9cef..3601660 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,11 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* the update was not read, look for it again */
+		fs->last_ino = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From 55a7512cbc6dc3d37d95802857cd6e67fbe4dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 47/62] fix: report a read error in wdns_file_load_names

---
 wdns/file_load_names.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 3a79b9e..a32df45 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -45,6 +45,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		cb(&name, user);
 	}
 
+	if (res == wdns_res_success && ferror(fp))
+		res = wdns_res_failure;
+
 	free(line);
 	fclose(fp);
 	return (res);
-- 
2.43.0


From 54c504c958d1bfdec888ddef052317491684da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 48/62] fix: argv queues as many options awaiting values as are
 given

---
 libmy/argv.c | 109 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 16b1c84..75ee3d1 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2162,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2256,7 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p, okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2269,53 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static int queue_add
+ *
+ * DESCRIPTION:
+ *
+ * Add an entry to the end of our option queue.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Faulure - -1
+ *
+ * ARGUMENTS:
+ *
+ * queue_list_p <-> Our option queue for storing options to arguments.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * entry_p -> Entry that is looking for a value.
+ */
+static	int	queue_add(argv_t ***queue_list_p, int *queue_head_p,
+			  argv_t *entry_p)
+{
+  argv_t	**list;
+  
+  list = (argv_t **)realloc(*queue_list_p,
+			    sizeof(argv_t *) * (*queue_head_p + 1));
+  if (list == NULL) {
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: memory error during argument processing\n",
+		    argv_program);
+    }
+    if (argv_interactive) {
+      (void)exit(argv_error_code);
+    }
+    return ERROR;
+  }
+  list[*queue_head_p] = entry_p;
+  *queue_list_p = list;
+  (*queue_head_p)++;
+  
+  return NOERROR;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2338,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2347,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2403,9 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    if (queue_add(queue_list_p, queue_head_p, match_p) != NOERROR) {
+      *okay_bp = ARGV_FALSE;
+    }
   }
 }
 
@@ -2421,7 +2469,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2481,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2573,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2584,14 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_add(queue_list_p, queue_head_p, NULL) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2708,7 +2757,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2790,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2800,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3173,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3235,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3246,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3270,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 92e8e1c7d51a4b90afd44f57d9638e8ce7bf1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 49/62] fix: a number after --argv-file is not stored through a
 null entry

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 75ee3d1..d6b5a79 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2763,7 +2763,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	     * find out that we can use it below
 	     */
 	    
-	    switch (ARGV_TYPE(match_p->ar_type)) {
+	    /* NOTE: it is null for the file argument */
+	    switch (match_p == NULL ? 0 : ARGV_TYPE(match_p->ar_type)) {
 	      
 	    case ARGV_SHORT:
 	    case ARGV_INT:
-- 
2.43.0


From 3a2717479372900e3ae75f522f5155f345e18dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 50/62] fix: argv does not look past the last entry for
 exclusive options

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index d6b5a79..12c721a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From aebc53a0b933687f5a50710e2d31835b710fe1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 51/62] fix: argv writes escaped characters of values whole

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 12c721a..296fcbc 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -482,7 +482,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 2 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 2), "\\%c", *(spec_p - 1));
+      LOC_SNPRINTF(SNP_ARG(out_p, 3), "\\%c", *(spec_p - 1));
       out_p += 2;
       continue;
     }
@@ -499,7 +499,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 4 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 4), "\\%03o", *buf_p);
+      LOC_SNPRINTF(SNP_ARG(out_p, 5), "\\%03o", *buf_p);
       out_p += 4;
     }
   }
-- 
2.43.0


From 38cd0c68a3b88a3b3dfb17ac513b67810bad399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 52/62] fix: argv leaves the argument strings as they were
 given

---
 libmy/argv.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 296fcbc..7c7f382 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2487,11 +2487,17 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
   argv_t	*grid_p, *match_p;
   int		len, char_c, unwant_c = 0;
   int		last_arg_b = ARGV_FALSE;
-  char		*close_p = NULL, **arg_p;
+  char		*close_p = NULL, *equals_p = NULL, **arg_p;
   
   /* run throught rest of arguments */
   for (arg_p = argv; arg_p < argv + arg_c; arg_p++) {
     
+    /* the argument before is left as it was given */
+    if (equals_p != NULL) {
+      *equals_p = ARG_EQUALS;
+      equals_p = NULL;
+    }
+    
     /* have we reached the LAST_ARG marker? */
     if (strcmp(LAST_ARG, *arg_p) == 0) {
       if (last_arg_b) {
@@ -2520,6 +2526,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	close_p = strchr(*arg_p, ARG_EQUALS);
 	/* if we found the special char then punch the null and set pointer */
 	if (close_p != NULL) {
+	  equals_p = close_p;
 	  *close_p = '\0';
 	  close_p++;
 	}
@@ -2706,6 +2713,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	close_p = strchr(*arg_p, ARG_EQUALS);
 	/* if we found the special char then punch the null and set pointer */
 	if (close_p != NULL) {
+	  equals_p = close_p;
 	  *close_p = '\0';
 	  close_p++;
 	}
@@ -2859,6 +2867,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     *okay_bp = ARGV_FALSE;
   }
   
+  if (equals_p != NULL) {
+    *equals_p = ARG_EQUALS;
+  }
+  
   if (unwant_c > 0 && argv_error_stream != NULL) {
     (void)fprintf(argv_error_stream,
 		  "%s: %s, %d unwanted additional argument%s\n",
-- 
2.43.0


From d286a86c5e0cd8e9045d0d340350cce1326d5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 53/62] fix: argv_long_was_used finds the argument by its name

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 7c7f382..ff728ef 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3456,7 +3456,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL && long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 68755fdccf54e1a8c27b58ecbdd2bb9081ac3210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 54/62] fix: argv refuses an array entry without a variable

---
 libmy/argv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index ff728ef..30ea87f 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1120,7 +1120,9 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
 	}
 	return ERROR;
       }
-      arrp->aa_entry_n = 0;
+      if (arrp != NULL) {
+	arrp->aa_entry_n = 0;
+      }
     }
     
     /* verify variable pointer */
-- 
2.43.0


From a226e78a5f26fbd296a75e29e97da081d827dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 55/62] fix: argv frees the environment arguments it does not
 use

---
 libmy/argv.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 30ea87f..4b33e14 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3255,9 +3255,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* do the external args */
@@ -3268,10 +3265,9 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
+  free(env_vect_p);
+  free(environ_p);
   
   /* make sure the XOR and MAND args and argument-options are okay */
   if (check_mand(args) != NOERROR) {
-- 
2.43.0


From bc441f37fbbd30a26f133bdb830c8f0d37a31e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:21 +0000
Subject: [PATCH 56/62] fix: argv_cleanup passes over an array entry without a
 variable

---
 libmy/argv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 4b33e14..a5d9d4c 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3530,6 +3530,11 @@ void	argv_cleanup(const argv_t *args)
     if (arg_p->ar_type & ARGV_FLAG_ARRAY) {
       argv_array_t	*arr_p = (argv_array_t *)arg_p->ar_variable;
       
+      /* this one was refused */
+      if (arr_p == NULL) {
+	continue;
+      }
+      
       /* free any entries */
       if (arr_p->aa_entry_n > 0) {
 	if (ARGV_TYPE(arg_p->ar_type) == ARGV_CHAR_P) {
-- 
2.43.0


From 42ecb85cb1e26e490cf4c8aa5cd3d61db582ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 57/62] fix: an argv array entry whose text is no number is
 zero

---
 libmy/argv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index a5d9d4c..ca57912 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1247,6 +1247,8 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     
     var = (char *)(arr_p->aa_entries) + arr_p->aa_entry_n * size;
     arr_p->aa_entry_n++;
+    /* not every text gives a value */
+    memset(var, 0, size);
   }
   
   /* translate depending on type */
-- 
2.43.0


From eda5c7fe995c9a501e000ea3ad65370e611463d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 58/62] fix: zonefile refuses a file that ends before its SOA

---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..db6c431 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -30,6 +30,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp) || ferror(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From d44c5771aa50ea844e7c2ac44e0a2500786594b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 59/62] fix: zonefile frees its state when the file cannot be
 opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index db6c431..2d90bf3 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -87,8 +87,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		zonefile_destroy(&z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 289335afc83636194387c6f19f087635a26d2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 60/62] fix: zonefile keeps the origin a file sets before its
 SOA

---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2d90bf3..0528b60 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -61,7 +61,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From 7ca20e57cc4e9beb425d37ce97fb5e6f7ae4d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 61/62] fix: zonefile_get_serial answers after the SOA is
 handed out

---
 libmy/zonefile.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 0528b60..68f1ba7 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -19,6 +19,7 @@ struct zonefile {
 	ldns_rdf	*origin;
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
+	uint32_t	serial;
 	uint32_t	ttl;
 	size_t		count;
 };
@@ -64,6 +65,7 @@ out:
 	if (z->origin == NULL)
 		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
+	z->serial = ldns_rdf2native_int32(ldns_rr_rdf(rr, 2));
 	return (LDNS_STATUS_OK);
 }
 
@@ -138,9 +140,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From c4bcb180422cba81955160f2646687f507d56bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:30 +0000
Subject: [PATCH 62/62] fix: zonefile quotes the file name it gives to the
 shell

---
 libmy/zonefile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 68f1ba7..3f05dc9 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -81,8 +81,15 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		/* quoted, so that the shell takes any name as it is */
+		ubuf_add_cstr(u, "zcat -- '");
+		for (size_t i = 0; i < len_fname; i++) {
+			if (fname[i] == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_append(u, (const uint8_t *) &fname[i], 1);
+		}
+		ubuf_add_cstr(u, "'");
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0

