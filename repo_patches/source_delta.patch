From fcac1f769dbd858b663e79afc6361afb2d7c0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:44 +0000
Subject: [PATCH 01/55] fix: encoder: refuse tnt-8 payload bits beyond the
 payload size

Stray payload bits were or-ed over the stop bit so that a different packet
was encoded.  The tnt-64 encoder already refuses them.
---
 libipt/src/pt_encoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..ecc717f 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -328,6 +328,10 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 		if (packet->payload.tnt.bit_size >= 7)
 			return -pte_bad_packet;
 
+		/* Bits beyond the payload size would override the stop bit. */
+		if (packet->payload.tnt.payload >> packet->payload.tnt.bit_size)
+			return -pte_bad_packet;
+
 		errcode = pt_reserve(encoder, ptps_tnt_8);
 		if (errcode < 0)
 			return errcode;
-- 
2.43.0


From cfb2062a6989136c497e8fbd613ba5419655434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 02/55] fix: packet decoder: decode cyc packets with the top
 payload bits set

The encoder encodes 64-bit cycle counter values of up to ten bytes but the
decoder refused any such packet with more than 61 payload bits.
---
 libipt/src/pt_packet.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_packet.c b/libipt/src/pt_packet.c
index a10d052..5ec5d9b 100644
--- a/libipt/src/pt_packet.c
+++ b/libipt/src/pt_packet.c
@@ -419,13 +419,16 @@ int pt_pkt_read_cyc(struct pt_packet_cyc *packet, const uint8_t *pos,
 		ext = bits & pt_opm_cycx_ext;
 
 		bits >>= pt_opm_cycx_shr;
-		bits <<= shl;
 
-		shl += (8 - pt_opm_cycx_shr);
-		if (sizeof(value) * 8 < shl)
+		/* The last payload byte may only be used partially. */
+		if (sizeof(value) * 8 <= shl)
+			return -pte_bad_packet;
+
+		if (((bits << shl) >> shl) != bits)
 			return -pte_bad_packet;
 
-		value |= bits;
+		value |= bits << shl;
+		shl += (8 - pt_opm_cycx_shr);
 	}
 
 	packet->value = value;
-- 
2.43.0


From 898f9ccd4bd54b71686199b63855c0f1c17022f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 03/55] fix: sync: do not find the same psb again when
 searching backwards

If two PSB packets directly follow each other, a backward search from the
beginning of the second one finds the first one and navigates to the end of
the payload pattern, i.e. to the second one, again.  Repeated backward
synchronization does not progress and pt_evt_sync_backward() loops.
---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..966237e 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* If the PSB before @start is directly followed by the one at
+		 * @start, we find the latter.  Ignore it to ensure progress.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From e117882eda8c31961f80fe2800b64549e80f5566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 04/55] fix: packet decoder: report eos when synchronizing
 forward from the end

A packet decoder may be synchronized onto the very end of the trace.
Searching forward from there started beyond the end of the trace buffer and
failed with an internal error instead of -pte_eos.
---
 libipt/src/pt_packet_decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..38a0fbe 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -101,8 +101,13 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 	if (!pos)
 		pos = begin;
 
-	if (pos == sync)
+	if (pos == sync) {
+		/* We may have been synchronized onto the end of the trace. */
+		if (decoder->config.end - pos < ptps_psb)
+			return -pte_eos;
+
 		pos += ptps_psb;
+	}
 
 	if (pos < begin)
 		return -pte_internal;
-- 
2.43.0


From 0d38b2625ae78e29ccdc6fdb080c6d25fd49afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 05/55] fix: event decoder: accept any mode.exec outcome at
 tip.pgd

A MODE.EXEC packet may result in exec_mode, iflags, or (internal) ignore
events that bind to the next TIP.  At TIP.PGD, only exec_mode was handled;
the other two failed with -pte_bad_context on legal trace.
---
 libipt/src/pt_event_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..47ec772 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3140,6 +3140,7 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		fallthrough;
 	case ptev_exec_mode:
+	case ptev_iflags:
 		/* The MODE.EXEC might come with a standalone TIP.PGD or with a
 		 * FUP + TIP.PGD pair.  In both cases, we won't really reach
 		 * the IP in the TIP.PGD's payload since tracing is disabled as
@@ -3164,6 +3165,10 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 		ev->ip_suppressed = 1;
 		break;
 
+	case ptev_ignore:
+		decoder->event = NULL;
+		return pt_evt_decode_tip_pgd(decoder, packet);
+
 	default:
 		errcode = -pte_bad_context;
 		break;
-- 
2.43.0


From f951af5beaf6ffefde594b73a28f6d5594e0f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 06/55] fix: event decoder: apply the skl168 workaround at psb

The calibration is told about a PSB via pt_tcal_update_psb() in order to
check for CYC packets that were dropped preceding the PSB.  Nobody called
it, so the SKL168 workaround was never applied.
---
 libipt/src/pt_event_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 47ec772..735bad4 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1309,6 +1309,10 @@ static int pt_evt_decode_psb(struct pt_event_decoder *decoder)
 	if (pt_evq_pending(&decoder->evq, UINT32_MAX))
 		return -pte_bad_context;
 
+	errcode = pt_tcal_update_psb(&decoder->tcal, pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	pt_last_ip_init(&decoder->ip);
 	decoder->enabled = 0;
 
-- 
2.43.0


From 1b9e7b4169c61f1fa91ff20b16c21155620f63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 07/55] fix: event decoder: find the async branch behind other
 pending events

Dequeuing an event from the middle of the event queue moves it.  Comparing
event pointers then claims that it is not the async branch and swaps it with
the event that took its place, resulting in an internal error, e.g. for an
interrupt with a pending MWAIT.
---
 libipt/src/pt_event_decoder.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 735bad4..0d2b793 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2896,8 +2896,11 @@ static int pt_evt_decode_tip_event(struct pt_event_decoder *decoder)
 		if (!ev)
 			return -pte_internal;
 
-		/* Swap the asynchronous branch event with the first event. */
-		if (ev != async) {
+		/* Swap the asynchronous branch event with the first event.
+		 *
+		 * Beware that dequeuing may have moved the event.
+		 */
+		if (ev->type != ptev_async_branch) {
 			struct pt_event tmp;
 
 			tmp = *async;
-- 
2.43.0


From 3f8ce0d86f31e71cb41d058401cc681f290ede0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 08/55] fix: query decoder: return the status when
 synchronizing backwards

pt_qry_sync_backward() returned zero instead of the status flags and thus
did not tell about pending events and a suppressed IP.  The instruction flow
decoder relies on them.
---
 libipt/src/pt_query_decoder.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..8e7b473 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,7 +297,7 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
@@ -331,13 +331,13 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 
 		sync = pos;
 
-		errcode = pt_qry_start(decoder, ip);
-		if (errcode < 0) {
+		status = pt_qry_start(decoder, ip);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -350,7 +350,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 			break;
 	}
 
-	return 0;
+	return status;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0


From 9374cb4a39aa8d9e6b0775777f8ea7085cd1b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 09/55] fix: event decoder: skip incomplete sync points when
 searching backwards

---
 libipt/src/pt_event_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 0d2b793..056b9cd 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1518,6 +1518,12 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 
 		errcode = pt_evt_start(decoder);
 
+		/* Ignore incomplete trace segments at the end.  We need a full
+		 * PSB+ to start decoding.
+		 */
+		if (errcode == -pte_eos)
+			continue;
+
 		pos = pt_evt_pos(decoder);
 		if (pos < start)
 			return errcode;
-- 
2.43.0


From 06e790afd114cdba6d499f44062edcd2a48a9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 10/55] fix: sync backward: find a PSB+ that ends at the end of
 the trace

An unsynchronized decoder searching backwards skipped a sync point whose
PSB+ ends exactly at the end of the trace, mistaking it for the current one.
---
 libipt/src/pt_block_decoder.c | 19 +++++--------------
 libipt/src/pt_event_decoder.c | 13 +++++--------
 libipt/src/pt_query_decoder.c | 19 +++++--------------
 3 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a02378b..d1ea8ea 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -513,19 +513,10 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 	if (!decoder)
 		return -pte_invalid;
 
+	/* If we're not synchronized, we search the entire trace.  There is no
+	 * current PSB+ that we'd need to skip.
+	 */
 	start = pt_blk_pos(decoder);
-	if (!start) {
-		const struct pt_config *config;
-
-		config = pt_blk_config(decoder);
-		if (!config)
-			return -pte_internal;
-
-		start = config->end;
-		if (!start)
-			return -pte_bad_config;
-	}
-
 	sync = start;
 	for (;;) {
 		errcode = pt_blk_reset(decoder);
@@ -538,7 +529,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 				return errcode;
 
 			pos = pt_blk_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
@@ -557,7 +548,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 		 * the same PSB again.  Skip it.
 		 */
 		pos = pt_blk_pos(decoder);
-		if (pos < start)
+		if (!start || (pos < start))
 			break;
 	}
 
diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 056b9cd..907f53b 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1493,13 +1493,10 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 	if (!decoder)
 		return -pte_invalid;
 
+	/* If we're not synchronized, we search the entire trace.  There is no
+	 * current PSB+ that we'd need to skip.
+	 */
 	start = pt_evt_pos(decoder);
-	if (!start) {
-		start = pt_evt_end(decoder);
-		if (!start)
-			return -pte_bad_config;
-	}
-
 	sync = start;
 	for (;;) {
 		errcode = pt_evt_reset(decoder);
@@ -1512,7 +1509,7 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 				return errcode;
 
 			pos = pt_evt_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
@@ -1525,7 +1522,7 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 			continue;
 
 		pos = pt_evt_pos(decoder);
-		if (pos < start)
+		if (!start || (pos < start))
 			return errcode;
 	}
 }
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 8e7b473..cd437a7 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -302,19 +302,10 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 	if (!decoder)
 		return -pte_invalid;
 
+	/* If we're not synchronized, we search the entire trace.  There is no
+	 * current PSB+ that we'd need to skip.
+	 */
 	start = pt_qry_pos(decoder);
-	if (!start) {
-		const struct pt_config *config;
-
-		config = pt_qry_config(decoder);
-		if (!config)
-			return -pte_internal;
-
-		start = config->end;
-		if (!start)
-			return -pte_bad_config;
-	}
-
 	sync = start;
 	for (;;) {
 		errcode = pt_qry_reset(decoder);
@@ -327,7 +318,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 				return errcode;
 
 			pos = pt_qry_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && (sync <= pos));
 
 		sync = pos;
 
@@ -346,7 +337,7 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 		 * the same PSB again.  Skip it.
 		 */
 		pos = pt_qry_pos(decoder);
-		if (pos < start)
+		if (!start || (pos < start))
 			break;
 	}
 
-- 
2.43.0


From a9daef309ea8138024bdf869f8ea1b95b8823c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 11/55] fix: block decoder: return the status when
 synchronizing backwards

---
 libipt/src/pt_block_decoder.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index d1ea8ea..bc9881f 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -508,7 +508,7 @@ int pt_blk_sync_forward(struct pt_block_decoder *decoder)
 int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
@@ -533,13 +533,13 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 
 		sync = pos;
 
-		errcode = pt_blk_start(decoder);
-		if (errcode < 0) {
+		status = pt_blk_start(decoder);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -552,7 +552,7 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 			break;
 	}
 
-	return 0;
+	return status;
 }
 
 int pt_blk_sync_set(struct pt_block_decoder *decoder, uint64_t offset)
-- 
2.43.0


From 9cae40fb2f6ff1e9ee7a444efffe58ed4062fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 12/55] fix: event decoder: do not report a position outside
 the trace after a failed sync

---
 libipt/src/pt_event_decoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 907f53b..277aaf4 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -56,6 +56,7 @@ static int pt_evt_reset(struct pt_event_decoder *decoder)
 		return -pte_internal;
 
 	decoder->packet.type = ppt_invalid;
+	decoder->packet.size = 0;
 	decoder->status = -pte_nosync;
 	decoder->event = NULL;
 	decoder->enabled = 0;
-- 
2.43.0


From 9bd8809abec6425a66c96b3f5dc0ecf97e0ced36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 13/55] fix: packet decoder: do not move past the end of the
 trace for skz84

---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 38a0fbe..e6984f7 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -525,6 +525,10 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
 
+			/* The corrupted packet must fit into the buffer. */
+			if ((decoder->config.end - decoder->pos) < size)
+				return -pte_eos;
+
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
 		}
-- 
2.43.0


From c34219f9f7b592c56160fedd65a7345d78704dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 14/55] fix: query decoder: do not take the start IP from a
 later PSB+

---
 libipt/src/pt_query_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index cd437a7..084e48a 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -254,6 +254,12 @@ static int pt_qry_start(struct pt_query_decoder *decoder, uint64_t *ip)
 
 			break;
 
+		case ptev_disabled:
+			/* Tracing is disabled at this PSB+.  Any subsequent
+			 * status update belongs to a later PSB+.
+			 */
+			break;
+
 		default:
 			continue;
 		}
-- 
2.43.0


From 9603c8e8f71d62f694a3a48039924f90f2afc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 15/55] fix: block decoder: report the end of the trace when
 trace is needed

---
 libipt/src/pt_block_decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index bc9881f..c5bdb98 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3042,8 +3042,13 @@ static int pt_blk_proceed(struct pt_block_decoder *decoder,
 			return -pte_eos;
 
 		status = pt_blk_proceed_no_event(decoder, block);
-		if (status < 0)
+		if (status < 0) {
+			/* We need trace but there is none left. */
+			if (status == -pte_bad_query)
+				status = -pte_eos;
+
 			return status;
+		}
 
 		return pts_eos;
 	}
-- 
2.43.0


From 7b1284100b6787483ae5ce9e256acd1fd9edf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 16/55] fix: block decoder: proceed to the trigger's own IP

---
 libipt/src/pt_block_decoder.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index c5bdb98..ba7f9d6 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3809,9 +3809,11 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		if (ev->variant.trig.icnt)
 			break;
 
-		/* If this is the TRIG location, it better be right here. */
+		/* If the event provided an IP, we may still have to get there,
+		 * as well.
+		 */
 		if (ev->variant.trig.ip != decoder->ip)
-			return -pte_bad_packet;
+			break;
 
 		return pt_blk_status(decoder, pts_event_pending);
 	}
-- 
2.43.0


From 90b67cfdd5121b5e40fd06ce5e23f06595ba1e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 17/55] fix: block decoder: end blocks at calls and jumps also
 when proceeding to an event

---
 libipt/src/pt_block_decoder.c | 46 ++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index ba7f9d6..f51b964 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -940,6 +940,30 @@ static int pt_blk_proceed_one_insn(struct pt_block_decoder *decoder,
 }
 
 
+/* Check if the user asked to end a block after its last instruction.
+ *
+ * We only need to take care about direct near branches.  Indirect and far
+ * branches require trace and will naturally end a block.
+ *
+ * Returns a positive integer if @block shall end, zero otherwise.
+ */
+static int pt_blk_is_user_end(const struct pt_block_decoder *decoder,
+			      const struct pt_block *block)
+{
+	if (!decoder || !block || !block->ninsn)
+		return 0;
+
+	if (decoder->flags.variant.block.end_on_call &&
+	    (block->iclass == ptic_call))
+		return 1;
+
+	if (decoder->flags.variant.block.end_on_jump &&
+	    (block->iclass == ptic_jump))
+		return 1;
+
+	return 0;
+}
+
 /* Proceed to a particular type of instruction without using trace.
  *
  * Proceed until we reach an instruction for which @predicate returns a positive
@@ -1169,7 +1193,7 @@ static int pt_blk_proceed_skl014(struct pt_block_decoder *decoder,
 		    (insn->iclass == ptic_call)) ||
 		    (decoder->flags.variant.block.end_on_jump &&
 		    (insn->iclass == ptic_jump)))
-			break;
+			return 0;
 	}
 
 	return status;
@@ -1306,6 +1330,10 @@ static int pt_blk_proceed_to_ptwrite(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* End the block if the user asked us to. */
+	if (pt_blk_is_user_end(decoder, block))
+		return 0;
+
 	/* We reached the PTWRITE instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1364,6 +1392,10 @@ static int pt_blk_proceed_to_iret(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* End the block if the user asked us to. */
+	if (pt_blk_is_user_end(decoder, block))
+		return 0;
+
 	/* We reached the IRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1422,6 +1454,10 @@ static int pt_blk_proceed_to_vmentry(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* End the block if the user asked us to. */
+	if (pt_blk_is_user_end(decoder, block))
+		return 0;
+
 	/* We reached the vmentry instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1480,6 +1516,10 @@ static int pt_blk_proceed_to_uiret(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* End the block if the user asked us to. */
+	if (pt_blk_is_user_end(decoder, block))
+		return 0;
+
 	/* We reached the UIRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1583,6 +1623,10 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	 * way when @block runs full.
 	 */
 	while (ev->variant.trig.icnt) {
+		/* End the block if the user asked us to. */
+		if (pt_blk_is_user_end(decoder, block))
+			return 0;
+
 		status = pt_blk_proceed_one_insn(decoder, block, insn, iext);
 		if (status <= 0)
 			return status;
-- 
2.43.0


From 38778af326ac5c8520e42084f41626750ead523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 18/55] fix: block decoder: expect to resume after the
 instruction that disabled tracing

---
 libipt/src/pt_block_decoder.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index f51b964..b681110 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1820,6 +1820,13 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 			status = pt_blk_set_disable_resume_ip(decoder, &insn);
 			if (status < 0)
 				return status;
+		} else if (ev->ip_suppressed) {
+			/* We stopped at @insn, which doesn't require trace.
+			 * We expect tracing to resume after @insn.
+			 */
+			status = pt_insn_next_ip(&decoder->ip, &insn, &iext);
+			if (status < 0)
+				return status;
 		}
 
 		break;
@@ -3340,8 +3347,16 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 
 		/* A sync disable may bind to a CR3 changing instruction. */
 		if (ev->ip_suppressed &&
-		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext))
+		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext)) {
+			/* We expect tracing to resume after that instruction.
+			 */
+			status = pt_insn_next_ip(&decoder->ip, &decoder->insn,
+						 &decoder->iext);
+			if (status < 0)
+				return status;
+
 			return pt_blk_status(decoder, pts_event_pending);
+		}
 
 		/* Or it binds to the next branch that would require trace.
 		 *
-- 
2.43.0


From a2bcee2af6f941dd74a3e99bfee8c32d0b814a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 19/55] fix: block decoder: do not let end_on_jump change the
 shared block cache

Cache entries that are filled without end_on_jump lead across direct forward
jumps.  Another decoder that shares the section's block cache and that asks
for blocks to end at jumps would use those entries and not stop at the jump.
---
 libipt/src/pt_block_decoder.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index b681110..9ead78d 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2404,6 +2404,12 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *     postpone it to the next iteration.  Make sure to end the block if
 	 *     @decoder->flags.variant.block.end_on_call is set, though.
 	 *
+	 *   - at near direct jumps to end the block if the user asked us to
+	 *
+	 *     The block cache is shared with other decoders that may be
+	 *     configured differently so its entries must not depend on
+	 *     @decoder->flags.variant.block.end_on_jump.
+	 *
 	 *   - at near direct backwards jumps to detect section splits
 	 *
 	 *     In case the current section is split underneath us, we must take
@@ -2454,11 +2460,8 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 		    (iext.iclass == PTI_INST_JMPABS))
 			return -pte_internal;
 
-		if (iext.variant.branch.displacement < 0 ||
-		    decoder->flags.variant.block.end_on_jump)
-			return pt_blk_add_decode(bcache, ioff, insn.mode);
+		return pt_blk_add_decode(bcache, ioff, insn.mode);
 
-		fallthrough;
 	default:
 		if (!pt_blk_is_in_section(msec, nip) || block->truncated)
 			return pt_blk_add_decode(bcache, ioff, insn.mode);
-- 
2.43.0


From 8428077d41e533fd2322de8810912ff96e0445c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 20/55] fix: block decoder: end block on call or jump before an
 skd022 vm entry

---
 libipt/src/pt_block_decoder.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 9ead78d..83252e9 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1851,7 +1851,14 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 
 				/* If the erratum hits, we modify the event.
 				 * Try again.
+				 *
+				 * The modified event is reached by the VM entry
+				 * instruction.  Do not add it to @block if the
+				 * user asked us to end @block.
 				 */
+				if (pt_blk_is_user_end(decoder, block))
+					return 0;
+
 				return pt_blk_proceed_event(decoder, block);
 			}
 		}
-- 
2.43.0


From 91b8127138903906f39bee6adb219e114644d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 21/55] fix: block decoder: do not use block cache entries of
 another execution mode

---
 libipt/src/pt_block_decoder.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 83252e9..855ea3d 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2520,12 +2520,14 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 			return 0;
 	}
 
-	/* We must not have switched execution modes.
+	/* The entry may have been added for a different execution mode.
 	 *
-	 * This would require an event and we're on the no-event flow.
+	 * We would have needed an event to switch modes and we're on the
+	 * no-event flow.  The entry must have been added by somebody else who
+	 * executes the same code in a different mode.
 	 */
 	if (pt_bce_exec_mode(bce) != insn.mode)
-		return -pte_internal;
+		return 0;
 
 	/* The decision point IP and the displacement from @insn.ip. */
 	dip = nip + (uint64_t) (int64_t) bce.displacement;
@@ -2672,6 +2674,12 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 							  bcache, msec,
 							  bcache_fill_steps);
 
+	/* The block cache may be shared with decoders that execute the same
+	 * code in a different execution mode.  Do not use their entries.
+	 */
+	if (pt_bce_exec_mode(bce) != decoder->mode)
+		return pt_blk_proceed_no_event_uncached(decoder, block);
+
 	/* If we switched sections, the original section must have been split
 	 * underneath us.  A split preserves the block cache of the original
 	 * section.
-- 
2.43.0


From eb570f0c3021271db18a7685abc51bb5a919e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 22/55] fix: image: copy only the remaining parts of split
 sections

pt_image_copy() added the entire section at the address of each remaining part
of a section that had been split or shrunk by a later addition.
---
 libipt/src/pt_image.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..8d129d8 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,22 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add @size bytes of @section starting at @offset. */
+static int pt_image_add_part(struct pt_image *image, struct pt_section *section,
+			     const struct pt_asid *asid, uint64_t vaddr,
+			     uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +246,13 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	return pt_image_add_part(image, section, asid, vaddr, 0ull,
+				 pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -339,10 +347,13 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 	for (list = src->sections; list; list = list->next) {
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		/* The section may have been split; copy what is left of it. */
+		errcode = pt_image_add_part(image, list->section.section,
+					    &list->section.asid,
+					    list->section.vaddr,
+					    list->section.offset,
+					    list->section.size,
+					    list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From e601d78a86d3432e8703da7b126b0465cc162856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 23/55] fix: image section cache: report unknown big
 identifiers as bad image

pt_iscache_read() and pt_image_add_cached() are documented to return
-pte_bad_image for identifiers the cache does not contain.  For identifiers
above 65536, they returned -pte_internal.
---
 libipt/src/pt_image_section_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..afb97ee 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -767,7 +767,7 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 	isid -= 1;
 	if (isid > UINT16_MAX)
-		return -pte_internal;
+		return -pte_bad_image;
 
 	index = (uint16_t) isid;
 
-- 
2.43.0


From 0fc17460f3dc09abb8fb15d9242ba6927a1da63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 24/55] fix: libipt, image: detach sections before clearing the
 LRU cache

When an image section cache is freed or cleared while its sections are used
by an image in another thread, a section may be mapped after the LRU cache
had been taken and before the section was detached.  It was added to the new
LRU cache, where it stayed: the section, its mapping, and the LRU entry leaked.

Detach from all sections first.
---
 libipt/src/pt_image_section_cache.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index afb97ee..b67c977 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -796,7 +796,6 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 int pt_iscache_clear(struct pt_image_section_cache *iscache)
 {
-	struct pt_iscache_lru_entry *lru;
 	struct pt_iscache_entry *entries;
 	uint16_t idx, end;
 	int errcode;
@@ -810,35 +809,35 @@ int pt_iscache_clear(struct pt_image_section_cache *iscache)
 
 	entries = iscache->entries;
 	end = iscache->size;
-	lru = iscache->lru;
 
 	iscache->entries = NULL;
 	iscache->capacity = 0;
 	iscache->size = 0;
-	iscache->lru = NULL;
-	iscache->used = 0ull;
 
 	errcode = pt_iscache_unlock(iscache);
 	if (errcode < 0)
 		return errcode;
 
-	errcode = pt_iscache_lru_free(lru);
-	if (errcode < 0)
-		return errcode;
-
+	/* Detach from all sections before we clear the LRU cache.
+	 *
+	 * The sections may be in use by others and are added to the LRU cache
+	 * when they are mapped - until we detached.
+	 */
 	for (idx = 0; idx < end; ++idx) {
-		struct pt_section *section;
-
-		section = entries[idx].section;
-
 		/* We do not zero-initialize the array - a NULL check is
 		 * pointless.
 		 */
-		errcode = pt_section_detach(section, iscache);
+		errcode = pt_section_detach(entries[idx].section, iscache);
 		if (errcode < 0)
 			return errcode;
+	}
 
-		errcode = pt_section_put(section);
+	errcode = pt_iscache_lru_clear(iscache);
+	if (errcode < 0)
+		return errcode;
+
+	for (idx = 0; idx < end; ++idx) {
+		errcode = pt_section_put(entries[idx].section);
 		if (errcode < 0)
 			return errcode;
 	}
-- 
2.43.0


From 082bf24bd76a19a50258251bf40fabd80087164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 25/55] fix: sideband, pevent: do not free the decoder twice if
 its initialization fails

---
 sideband/src/pt_sb_pevent.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 83dac5e..2a58859 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -225,12 +225,10 @@ static int pt_sb_pevent_find_vdso(const char **pvdso,
 	return 0;
 }
 
-static void pt_sb_pevent_dtor(void *priv_arg)
+static void pt_sb_pevent_fini(struct pt_sb_pevent_priv *priv)
 {
-	struct pt_sb_pevent_priv *priv;
 	struct pt_sb_context *context;
 
-	priv = (struct pt_sb_pevent_priv *) priv_arg;
 	if (!priv)
 		return;
 
@@ -248,6 +246,11 @@ static void pt_sb_pevent_dtor(void *priv_arg)
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
 	free(priv->begin);
+}
+
+static void pt_sb_pevent_dtor(void *priv)
+{
+	pt_sb_pevent_fini((struct pt_sb_pevent_priv *) priv);
 	free(priv);
 }
 
@@ -313,31 +316,31 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->sysroot, config->sysroot);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x64, config->vdso_x64);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x32, config->vdso_x32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_ia32, config->vdso_ia32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
-- 
2.43.0


From 3b0a45ccacdf75fd1b3531d2a2466541e7753ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 26/55] fix: sideband, pevent: release the decoder's buffers if
 it cannot be added

---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 2a58859..74d13bc 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1801,7 +1801,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_alloc_decoder(session, &config);
 	if (errcode < 0)
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 
 	return errcode;
 }
-- 
2.43.0


From 3af305eefd9d802bc268a4bacacb692bddcd6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 27/55] fix: sideband, pevent: saturate the time for negative
 tsc offsets

---
 sideband/src/pt_sb_pevent.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 74d13bc..cef9f8f 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -406,18 +406,10 @@ static int pt_sb_pevent_fetch(uint64_t *ptsc, struct pt_sb_pevent_priv *priv)
 	 */
 	offset = priv->tsc_offset;
 	tsc = event->sample.tsc;
-	if (offset <= tsc)
-		tsc -= offset;
-	else {
-		if (0ll <= (int64_t) offset)
-			tsc = 0ull;
-		else {
-			if (tsc <= offset)
-				tsc -= offset;
-			else
-				tsc = UINT64_MAX;
-		}
-	}
+	if (0ll <= (int64_t) offset)
+		tsc = (offset <= tsc) ? tsc - offset : 0ull;
+	else
+		tsc = (tsc < offset) ? tsc - offset : UINT64_MAX;
 
 	/* We update the event record's timestamp, as well, so we will print the
 	 * updated tsc and apply the event at the right time.
-- 
2.43.0


From d352ba23e220ad0a3a50e9b61ba1e8f031e15d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 28/55] fix: sideband, pevent: do not map files with truncated
 names

---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index cef9f8f..ae832df 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1234,7 +1234,7 @@ static int pt_sb_pevent_map(struct pt_sb_session *session,
 		/* Prepend the sysroot to normal files. */
 		errcode = snprintf(buffer, sizeof(buffer), "%s%s", sysroot,
 				   filename);
-		if (errcode < 0)
+		if (errcode < 0 || (int) sizeof(buffer) <= errcode)
 			return -pte_overflow;
 
 		filename = buffer;
-- 
2.43.0


From ffbf2c1e612fc73cd4b231ea6a7780285051a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:15 +0000
Subject: [PATCH 29/55] fix: sideband, pevent: report offsets in the sideband
 file

---
 sideband/internal/include/pt_sb_pevent.h | 3 +++
 sideband/src/pt_sb_pevent.c              | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sideband/internal/include/pt_sb_pevent.h b/sideband/internal/include/pt_sb_pevent.h
index 328e2e6..adf4155 100644
--- a/sideband/internal/include/pt_sb_pevent.h
+++ b/sideband/internal/include/pt_sb_pevent.h
@@ -100,6 +100,9 @@ struct pt_sb_pevent_priv {
 	/* The begin and end of the sideband data in memory. */
 	uint8_t *begin, *end;
 
+	/* The offset of @begin in the sideband file. */
+	uint64_t offset;
+
 	/* The position of the current and the next record in the sideband
 	 * buffer.
 	 *
diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index ae832df..f81ecba 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -155,7 +155,7 @@ static int pt_sb_pevent_error(const struct pt_sb_session *session, int errcode,
 			return -pte_internal;
 
 		filename = priv->filename;
-		offset = (uint64_t) (int64_t) (pos - begin);
+		offset = priv->offset + (uint64_t) (int64_t) (pos - begin);
 	}
 
 	return pt_sb_error(session, errcode, filename, offset);
@@ -313,6 +313,7 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->begin = (uint8_t *) buffer;
 	priv->end = (uint8_t *) buffer + size;
 	priv->next = (uint8_t *) buffer;
+	priv->offset = (uint64_t) config->begin;
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
@@ -857,7 +858,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 	switch (flags & (ptsbp_filename | ptsbp_file_offset)) {
 	case ptsbp_filename | ptsbp_file_offset:
 		fprintf(stream, "%s:%016" PRIx64 "  ", filename,
-			(uint64_t) (int64_t) (pos - begin));
+			priv->offset + (uint64_t) (int64_t) (pos - begin));
 		break;
 
 	case ptsbp_filename:
@@ -866,7 +867,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 
 	case ptsbp_file_offset:
 		fprintf(stream, "%016" PRIx64 "  ",
-			(uint64_t) (int64_t) (pos - begin));
+			priv->offset + (uint64_t) (int64_t) (pos - begin));
 		break;
 	}
 
-- 
2.43.0


From 85244c6d51f839345be67a7695b229409f87e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 30/55] fix: libipt, ild: do not take VMCLEAR and VMXON for
 VMPTRLD

They share the opcode and the ModRM encoding of VMPTRLD but have a mandatory
prefix.  Taken for VMPTRLD, they consume the VMCS event that binds to a later
instruction.
---
 libipt/src/pt_ild.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_ild.c b/libipt/src/pt_ild.c
index 6e3c970..ada48a4 100644
--- a/libipt/src/pt_ild.c
+++ b/libipt/src/pt_ild.c
@@ -1447,7 +1447,8 @@ static int pt_instruction_decode(struct pt_insn *insn, struct pt_insn_ext *iext,
 		return 0;
 
 	case 0xc7:
-		if (map == PTI_MAP_1 &&
+		/* With a mandatory prefix, this is VMCLEAR or VMXON. */
+		if (map == PTI_MAP_1 && !ild->osz && !ild->last_f2f3 &&
 		    pti_get_modrm_mod(ild) != 3 &&
 		    pti_get_modrm_reg(ild) == 6)
 			iext->iclass = PTI_INST_VMPTRLD;
-- 
2.43.0


From 014c2ed6041b29f1136f327031873261163e30aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 31/55] fix: ptdump: reset last-ip at PSB

IP packets are compressed against a last IP of zero after PSB.  Reset the
tracked last IP like the event decoder does so --lastip does not combine the
payload with an address from before the PSB.
---
 ptdump/src/ptdump.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index a2daba6..ccb303d 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1077,6 +1077,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 	case ppt_psb:
 		print_field(buffer->opcode, "psb");
 
+		/* The last IP is reset at PSB. */
+		pt_last_ip_init(&tracking->last_ip);
+
 		if (options->track_time) {
 			int errcode;
 
-- 
2.43.0


From 8a9ec96a5b340768857de1de9390a0769145bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 32/55] fix: ptdump: reset last-ip at OVF

The event decoder resets the last IP on overflow.  Do the same in ptdump.
---
 ptdump/src/ptdump.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index ccb303d..a090030 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1107,6 +1107,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 	case ppt_ovf:
 		print_field(buffer->opcode, "ovf");
 
+		/* The last IP is reset on overflow. */
+		pt_last_ip_init(&tracking->last_ip);
+
 		if (options->track_time) {
 #if (LIBIPT_VERSION >= 0x201)
 			if (options->keep_tcal_on_ovf) {
-- 
2.43.0


From 42ef2d2cd50b8b7a5d9225b35e765f247591e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 33/55] fix: ptdump: end PSB+ at OVF

An overflow inside PSB+ ends the PSB+; there is no PSBEND.  When calibrating
time, ptdump kept treating packets that follow as PSB+ packets.
---
 ptdump/src/ptdump.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index a090030..ca345e6 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1110,6 +1110,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 		/* The last IP is reset on overflow. */
 		pt_last_ip_init(&tracking->last_ip);
 
+		/* An OVF ends a PSB just like PSBEND. */
+		tracking->in_header = 0;
+
 		if (options->track_time) {
 #if (LIBIPT_VERSION >= 0x201)
 			if (options->keep_tcal_on_ovf) {
-- 
2.43.0


From 9b921e167ffcb295f21199580d34a045c583ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 34/55] fix: ptseg: report the segment that contains the offset

Searching backwards does not find a PSB that contains the offset.  Searching
forward from the PSB before it then ends at that PSB, i.e. before the offset,
and we reported a segment that does not contain the offset.  With no earlier
PSB, we searched forward from the offset and reported a segment that spans the
PSB.

Keep searching forward until we find a PSB that lies after the offset.
---
 ptseg/src/ptseg.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/ptseg/src/ptseg.c b/ptseg/src/ptseg.c
index e6d7aad..6e5062c 100644
--- a/ptseg/src/ptseg.c
+++ b/ptseg/src/ptseg.c
@@ -217,6 +217,7 @@ static int ptseg_pkt_find_seg(uint64_t *begin, uint64_t *end,
 			      struct pt_packet_decoder *decoder,
 			      uint64_t offset)
 {
+	uint64_t sync;
 	int errcode;
 
 	errcode = pt_pkt_sync_set(decoder, offset);
@@ -227,22 +228,43 @@ static int ptseg_pkt_find_seg(uint64_t *begin, uint64_t *end,
 	if (errcode < 0) {
 		if (errcode != -pte_eos)
 			return errcode;
+
+		/* There may still be a PSB that only partly precedes @offset.
+		 */
+		errcode = pt_pkt_sync_set(decoder, 0ull);
+		if (errcode < 0)
+			return errcode;
 	} else {
 		errcode = pt_pkt_get_offset(decoder, begin);
 		if (errcode < 0)
 			return errcode;
 	}
 
-	errcode = pt_pkt_sync_forward(decoder);
-	if (errcode < 0) {
-		if (errcode != -pte_eos)
-			return errcode;
-	} else {
-		errcode = pt_pkt_get_offset(decoder, end);
+	/* We may not find PSB that contain @offset when searching backwards.
+	 *
+	 * Skip them when searching forward so the segment contains @offset.
+	 */
+	for (;;) {
+		errcode = pt_pkt_sync_forward(decoder);
+		if (errcode < 0) {
+			if (errcode != -pte_eos)
+				return errcode;
+
+			return 0;
+		}
+
+		errcode = pt_pkt_get_offset(decoder, &sync);
 		if (errcode < 0)
 			return errcode;
+
+		if (offset < sync)
+			break;
+
+		*begin = sync;
 	}
 
+	*end = sync;
+
 	return 0;
 }
 
-- 
2.43.0


From 05d19c98ed9ab83c14d7fecbe8e8141fec09b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:46 +0000
Subject: [PATCH 35/55] fix: pttc: do not shift by the full width when masking
 a label

Masking a label with .8 keeps all of its eight bytes.  We computed the mask by
shifting a 64-bit value by 64 bits, which is undefined and typically resulted
in an address of zero.
---
 pttc/src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index c88e041..c04eb66 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -501,7 +501,8 @@ static int p_gen_expfile(struct parser *p)
 					goto error;
 				}
 
-				addr &= (1ull << (n << 3)) - 1ull;
+				if (n < 8)
+					addr &= (1ull << (n << 3)) - 1ull;
 				line = endptr;
 
 				qmark_size = (int) (8 - n);
-- 
2.43.0


From 5fdbe4eb86c02296c550812d377de7f4da24f73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 36/55] fix: pttc: name of the .exp file without tool

The expected output of an .exp directive without tool argument goes into
<file>.exp.  We wrote <file>-.exp and <file>--cpu_<f>_<m>.exp.
---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index c04eb66..0471599 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -268,7 +268,7 @@ static char *expfilename(struct parser *p, const char *extra)
 		len = snprintf(filename, sizeof(filename), "%s-%s%s%s",
 			       p->y->fileroot, extra, cpuext, exp_suffix);
 	else
-		len = snprintf(filename, sizeof(filename), "%s-%s%s",
+		len = snprintf(filename, sizeof(filename), "%s%s%s",
 			       p->y->fileroot, cpuext, exp_suffix);
 
 	if ((len < 0) || (sizeof(filename) <= (size_t) len))
-- 
2.43.0


From b7808db53e610b410dd4898d1ab33958d086a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 37/55] fix: pttc: line number and increment of %line
 directives

The arguments of st_set_file() were swapped.  This went unnoticed for a listing
with a single %line 1+1 directive.  Yasm adds further %line directives, e.g. for
align and section directives, behind which we took the wrong source lines and
silently dropped Intel PT directives and expected output.
---
 pttc/src/yasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 2284b44..4321dda 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -817,7 +817,7 @@ static int yasm_advance_next_line(struct yasm *y)
 			 * filename, if necessary.
 			 */
 			filename[FILENAME_MAX-1] = 0;
-			st_set_file(y->st_asm, filename, asm_line, asm_inc);
+			st_set_file(y->st_asm, filename, asm_inc, asm_line);
 			continue;
 		}
 #undef asstr
-- 
2.43.0


From aa4db262ed351275f71d0ad16baf18b69e501663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:33 +0000
Subject: [PATCH 38/55] fix: pttc: decimal section attributes

Yasm reads the numbers in start= and vstart= section attributes as decimal unless
they have a prefix.  We read them as hexadecimal numbers and resolved labels in
such sections to the wrong address.
---
 pttc/src/yasm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 4321dda..bd6ddc1 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -83,13 +83,15 @@ static int parse_section_label(struct label *l, const char *name,
 {
 	uint64_t addr;
 	char *value;
+	int errcode;
 
 	value = strtok(NULL, " ]");
 	if (!value)
 		return -err_section_attribute_no_value;
 
-	if (sscanf(value, "%" PRIx64, &addr) != 1)
-		return -err_parse_int;
+	errcode = str_to_uint64(value, &addr, 0);
+	if (errcode < 0)
+		return errcode;
 
 	return add_section_label(l, name, attribute, addr, NULL);
 }
-- 
2.43.0


From 52d26018fce48d709f6b427c8be1767f26a3da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 39/55] fix: pttc: section length

We computed the size of an opcode in the listing from its value, which ignores
leading zero bytes and opcodes of more than eight bytes, and we ignored what the
listing abbreviates.  The section_<name>_length label and the mappings generated
by pevent-mmap-section were too small.

Compute the length from the address of the last opcode and its number of digits.
---
 pttc/src/yasm.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index bd6ddc1..50cc693 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -158,12 +158,13 @@ static int lookup_section_vstart(struct label *l, char *line,
 
 static const char key_section[] = "[section";
 static const char key_org[] = "[org";
+static const char hex_digits[] = "0123456789abcdefABCDEF";
 
 int parse_yasm_labels(struct label *l, const struct text *t)
 {
 	int errcode, no_org_directive;
 	size_t i;
-	uint64_t base_addr;
+	uint64_t base_addr, addr, addr_size;
 	char line[1024], *end;
 	struct label *length;
 
@@ -172,6 +173,8 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 
 	base_addr = 0;
 	no_org_directive = 1;
+	addr = 0;
+	addr_size = 0;
 	length = NULL;
 	end = line + sizeof(line);
 
@@ -191,6 +194,9 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 			errcode = parse_section(tmp, l, &length);
 			if (errcode < 0)
 				return errcode;
+
+			addr = 0;
+			addr_size = 0;
 			continue;
 		}
 
@@ -222,7 +228,8 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 		 * this must be last; it destroys @line.
 		 */
 		if (length) {
-			uint64_t value, size;
+			uint64_t value;
+			size_t size;
 
 			tmp = strtok(line, " ");
 			if (!tmp)
@@ -247,16 +254,21 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 				continue;
 
 			/* we expect an opcode. */
-			errcode = str_to_uint64(tmp, &value, 16);
-			if (errcode < 0)
+			size = strspn(tmp, hex_digits) / 2;
+			if (!size)
 				continue;
 
-			/* we got an opcode - let's compute it's size. */
-			for (size = 0; value != 0; value >>= 8)
-				size += 1;
+			/* long opcodes continue on the next line, which repeats
+			 * the address.
+			 */
+			if (value != addr)
+				addr_size = 0;
+
+			addr = value;
+			addr_size += size;
 
 			/* update the section_<name>_length label. */
-			length->addr += size;
+			length->addr = addr + addr_size;
 		}
 	}
 
@@ -265,7 +277,6 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 
 	for (i = 0; i < t->n; i++) {
 		char *tmp;
-		uint64_t addr;
 
 		errcode = text_line(t, line, sizeof(line), i);
 		if (errcode < 0)
-- 
2.43.0


From 7a6d137c8b4984f46761dc2e8205d2d6f22cddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:19 +0000
Subject: [PATCH 40/55] fix: pttc: labels on a line by their own

When searching for the address of a label on a line by its own, we overwrote the
label's name with the line we were reading.  We also took for an address whatever
starts with a hexadecimal digit, such as another label, and we skipped the labels
on the lines we were reading.
---
 pttc/src/yasm.c | 84 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 50cc693..8058065 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -158,8 +158,50 @@ static int lookup_section_vstart(struct label *l, char *line,
 
 static const char key_section[] = "[section";
 static const char key_org[] = "[org";
+static const char key_align[] = "[align";
 static const char hex_digits[] = "0123456789abcdefABCDEF";
 
+/* Find the address of a label that is on a line by its own.
+ *
+ * This is the address of the first opcode or data on line @i or on one of the
+ * lines that follow.  We do not look into other sections and we do not know
+ * how much an align directive skips.
+ *
+ * Returns 0 on success; a negative enum errcode otherwise.
+ * Returns -err_label_addr if there is no address.
+ */
+static int find_label_addr(const struct text *t, size_t i, uint64_t *addr)
+{
+	for (; i < t->n; i++) {
+		char line[1024], *tmp;
+		int errcode;
+
+		errcode = text_line(t, line, sizeof(line), i);
+		if (errcode < 0)
+			return errcode;
+
+		if (strstr(line, key_section) || strstr(line, key_align))
+			break;
+
+		/* skip line number count.  */
+		tmp = strtok(line, " ");
+		if (!tmp)
+			continue;
+
+		/* addresses have at least eight digits and nothing else.  */
+		tmp = strtok(NULL, " ");
+		if (!tmp || strlen(tmp) < 8)
+			continue;
+
+		if (strlen(tmp) != strspn(tmp, hex_digits))
+			continue;
+
+		return str_to_uint64(tmp, addr, 16);
+	}
+
+	return -err_label_addr;
+}
+
 int parse_yasm_labels(struct label *l, const struct text *t)
 {
 	int errcode, no_org_directive;
@@ -276,7 +318,7 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 		return -err_no_org_directive;
 
 	for (i = 0; i < t->n; i++) {
-		char *tmp;
+		char *tmp, *name;
 
 		errcode = text_line(t, line, sizeof(line), i);
 		if (errcode < 0)
@@ -346,34 +388,28 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 			continue;
 		}
 
+		name = tmp;
+
+		/* a constant does not have an address.  */
+		tmp = strtok(NULL, " ");
+		if (tmp && strcmp(tmp, "equ") == 0)
+			continue;
+
 		/* there was a label so now an address needs to
 		 * be found.
 		 */
-		errcode = -err_label_addr;
-		for (i += 1; i < t->n; i++) {
-			int errcode_text;
-
-			errcode_text = text_line(t, line, sizeof(line), i);
-			if (errcode_text < 0) {
-				errcode = errcode_text;
-				break;
-			}
-			if (sscanf(line, "%*d %" PRIx64 " %*x %*s", &addr)
-			    == 1) {
-				uint64_t laddr;
-
-				laddr = addr + base_addr;
-				if (laddr < base_addr) {
-					errcode = -err_label_addr;
-					break;
-				}
-
-				errcode = l_append(l, tmp, laddr);
-				break;
-			}
+		errcode = find_label_addr(t, i + 1, &addr);
+		if (errcode == 0) {
+			uint64_t laddr;
+
+			laddr = addr + base_addr;
+			if (laddr < base_addr)
+				errcode = -err_label_addr;
+			else
+				errcode = l_append(l, name, laddr);
 		}
 		if (errcode == -err_label_addr)
-			fprintf(stderr, "label '%s' has no address\n", tmp);
+			fprintf(stderr, "label '%s' has no address\n", name);
 
 		if (errcode < 0)
 			goto error;
-- 
2.43.0


From cfad5dd72eb65f12db7d1f661eca33f7d4cd1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 41/55] fix: pttc: report bad pip modifiers

We diagnosed an unknown modifier but returned the zero errcode from parsing the
address.  The packet was left out and pttc succeeded.
---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 0471599..f7e8ec6 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -1424,7 +1424,7 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			else {
 				yasm_print_err(p->y, "pip: parsing failed",
 					       -err_parse_trailing_tokens);
-				return errcode;
+				return -err_parse_trailing_tokens;
 			}
 		}
 	} else if (strcmp(directive, "tsc") == 0) {
-- 
2.43.0


From 3ba6ac8504211dc9c86cc734f1a7569f2e08eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 42/55] fix: pttc: numeric pevent-sample_type arguments

We parsed the first argument instead of the current one and ignored all further
arguments.
---
 pttc/src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index f7e8ec6..456726e 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -2732,7 +2732,7 @@ static int p_process_sb(struct parser *p)
 				uint64_t value;
 				int errcode;
 
-				errcode = parse_uint64(&value, payload);
+				errcode = str_to_uint64(token, &value, 0);
 				if (errcode < 0) {
 					yasm_print_err(p->y, token, errcode);
 					return errcode;
-- 
2.43.0


From c4892acece39ca0eb13ba80603e5e7c32f274986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 43/55] fix: pttc: C-state range and trailing characters

C-states range from c0 to c15.  We rejected c15 and we ignored anything that
follows the number.
---
 pttc/src/parse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 456726e..b505c35 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -784,14 +784,15 @@ static int parse_mwait(uint32_t *hints, uint32_t *ext, char *payload)
 static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 {
 	unsigned int maj, min;
-	int matches;
+	int matches, end;
 
 	if (!input)
 		return -err_parse_no_args;
 
 	maj = 0;
 	min = 0;
-	matches = sscanf(input, " c%u.%u", &maj, &min);
+	end = 0;
+	matches = sscanf(input, " c%u%n.%u%n", &maj, &end, &min, &end);
 	switch (matches) {
 	default:
 		return -err_parse;
@@ -803,7 +804,7 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!sub_state)
 			return -err_parse_c_state_sub;
 
-		if (0xf <= min)
+		if (0xf < min)
 			return -err_parse_c_state_invalid;
 
 		fallthrough;
@@ -811,9 +812,12 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!state)
 			return -err_internal;
 
-		if (0xf <= maj)
+		if (0xf < maj)
 			return -err_parse_c_state_invalid;
 
+		if (input[end])
+			return -err_parse_trailing_tokens;
+
 		break;
 	}
 
-- 
2.43.0


From 18a34ca8629c839329e40fb977e12a57b6b285b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 44/55] fix: pttc: limit the number of branches in a tnt
 directive

The branches beyond the 64th were shifted out of the payload and the 8-bit
size wrapped with the 256th so that an over-long payload was turned into a
valid packet.
---
 pttc/src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index b505c35..61e5179 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -3300,6 +3300,10 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 		payload++;
 		if (isspace(c) || c == '.')
 			continue;
+
+		if (64 <= *size)
+			return -err_parse_trailing_tokens;
+
 		*size += 1;
 		*tnt <<= 1;
 		switch (c) {
-- 
2.43.0


From 567fced0bfc65b70f71ca05c49c4ebe8c8fd8122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:59 +0000
Subject: [PATCH 45/55] fix: pttc: do not accept negative tma arguments

A negative argument was truncated to 16 bit.
---
 pttc/src/parse.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 61e5179..91f544f 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -3463,8 +3463,7 @@ int parse_uint8(uint8_t *x, char *payload)
 
 int parse_tma(uint16_t *ctc, uint16_t *fc, char *payload)
 {
-	char *endptr;
-	long int i;
+	int errcode;
 
 	if (bug_on(!ctc || !fc))
 		return -err_internal;
@@ -3473,27 +3472,17 @@ int parse_tma(uint16_t *ctc, uint16_t *fc, char *payload)
 	if (!payload || *payload == '\0')
 		return -err_parse_no_args;
 
-	i = strtol(payload, &endptr, 0);
-	if (payload == endptr || *endptr != '\0')
-		return -err_parse_int;
-
-	if (i > 0xffffl)
-		return -err_parse_int_too_big;
-
-	*ctc = (uint16_t)i;
+	errcode = str_to_uint16(payload, ctc, 0);
+	if (errcode < 0)
+		return errcode;
 
 	payload = strtok(NULL, " ,");
 	if (!payload)
 		return -err_parse_no_args;
 
-	i = strtol(payload, &endptr, 0);
-	if (payload == endptr || *endptr != '\0')
-		return -err_parse_int;
-
-	if (i > 0xffffl)
-		return -err_parse_int_too_big;
-
-	*fc = (uint16_t)i;
+	errcode = str_to_uint16(payload, fc, 0);
+	if (errcode < 0)
+		return errcode;
 
 	/* no more tokens left.  */
 	payload = strtok(NULL, " ");
-- 
2.43.0


From 38d5026727bb15020f9ddaf0066d4879d2377881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 46/55] fix: pttc: report trailing tokens

Many directives silently ignored what followed their arguments, including
unknown keywords.
---
 pttc/src/parse.c | 82 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 5 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 91f544f..390f2a5 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -828,6 +828,25 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 	return 0;
 }
 
+/* Check that there is nothing left in @input.
+ *
+ * Returns zero on success.
+ * Returns a negative integer on error.
+ */
+static int parse_end(const char *input)
+{
+	int status;
+
+	status = parse_whitespace(&input);
+	if (status < 0)
+		return status;
+
+	if (*input)
+		return -err_parse_trailing_tokens;
+
+	return 0;
+}
+
 /* Parse a mode.exec execution mode in @input into @packet.
  *
  * Returns zero on success and updates @input.
@@ -1189,6 +1208,14 @@ static int parse_trig(const char **input, const struct parser *p,
 
 			continue;
 		}
+
+		status = yasm_print_err(p->y, "trig: bad argument, expected "
+					"'ip', 'mult', or 'icnt' keyword",
+					-err_parse);
+		if (status < 0)
+			return status;
+
+		return 1;
 	}
 
 	return 0;
@@ -1379,6 +1406,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		cpl = (const char *) payload;
 		errcode = parse_mode_exec(&cpl, p,
 					  &packet.payload.mode.bits.exec);
+		if (errcode == 0)
+			errcode = parse_end(cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y,
@@ -1411,9 +1441,14 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 		packet.payload.mode.leaf = pt_mol_tsx;
 		packet.type = ppt_mode;
 	} else if (strcmp(directive, "pip") == 0) {
-		const char *modifier;
+		const char *modifier, *token;
 
-		errcode = parse_uint64(&packet.payload.pip.cr3, payload);
+		token = strtok(payload, " ,");
+		if (!token)
+			errcode = -err_parse_no_args;
+		else
+			errcode = str_to_uint64(token, &packet.payload.pip.cr3,
+						0);
 		if (errcode < 0) {
 			yasm_print_err(p->y, "pip: parsing failed", errcode);
 			return errcode;
@@ -1423,7 +1458,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		modifier = strtok(NULL, " ,");
 		if (modifier) {
-			if (strcmp(modifier, "nr") == 0)
+			if ((strcmp(modifier, "nr") == 0) &&
+			    !strtok(NULL, " ,"))
 				packet.payload.pip.nr = 1;
 			else {
 				yasm_print_err(p->y, "pip: parsing failed",
@@ -1522,7 +1558,7 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		token = strtok(NULL, " ,");
 		if (token) {
-			if (strcmp(token, "hw") == 0)
+			if ((strcmp(token, "hw") == 0) && !strtok(NULL, " ,"))
 				packet.payload.pwre.hw = 1;
 			else {
 				yasm_print_err(p->y, "pwre: parsing failed",
@@ -1570,6 +1606,13 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 				       errcode);
 			return errcode;
 		}
+
+		token = strtok(NULL, " ,");
+		if (token) {
+			yasm_print_err(p->y, "pwrx: parsing failed",
+				       -err_parse_trailing_tokens);
+			return -err_parse_trailing_tokens;
+		}
 	} else if (strcmp(directive, "ptw") == 0) {
 		char *token;
 
@@ -1604,7 +1647,7 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		token = strtok(NULL, " ");
 		if (token) {
-			if (strcmp(token, "ip") != 0) {
+			if ((strcmp(token, "ip") != 0) || strtok(NULL, " ")) {
 				yasm_print_err(p->y, "ptw: parse error",
 					       -err_parse_trailing_tokens);
 				return -err_parse_trailing_tokens;
@@ -1617,6 +1660,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		cpl = (const char *) payload;
 		errcode = parse_cfe(&cpl, p, &packet.payload.cfe);
+		if (errcode == 0)
+			errcode = parse_end(cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y, "cfe: parsing failed",
@@ -1633,6 +1679,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		cpl = (const char *) payload;
 		errcode = parse_evd(&cpl, p, &packet.payload.evd);
+		if (errcode == 0)
+			errcode = parse_end(cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y, "evd: parsing failed",
@@ -1689,6 +1738,9 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 
 		cpl = (const char *) payload;
 		errcode = parse_trig(&cpl, p, &packet.payload.trig);
+		if (errcode == 0)
+			errcode = parse_end(cpl);
+
 		if (errcode != 0) {
 			if (errcode < 0)
 				yasm_print_err(p->y, "trig: parsing failed",
@@ -3404,6 +3456,11 @@ int parse_uint64(uint64_t *x, char *payload)
 	if (errcode < 0)
 		return errcode;
 
+	/* no more tokens left.  */
+	payload = strtok(NULL, " ,");
+	if (payload)
+		return -err_parse_trailing_tokens;
+
 	return 0;
 }
 
@@ -3422,6 +3479,11 @@ int parse_uint32(uint32_t *x, char *payload)
 	if (errcode < 0)
 		return errcode;
 
+	/* no more tokens left.  */
+	payload = strtok(NULL, " ,");
+	if (payload)
+		return -err_parse_trailing_tokens;
+
 	return 0;
 }
 
@@ -3440,6 +3502,11 @@ int parse_uint16(uint16_t *x, char *payload)
 	if (errcode < 0)
 		return errcode;
 
+	/* no more tokens left.  */
+	payload = strtok(NULL, " ,");
+	if (payload)
+		return -err_parse_trailing_tokens;
+
 	return 0;
 }
 
@@ -3458,6 +3525,11 @@ int parse_uint8(uint8_t *x, char *payload)
 	if (errcode < 0)
 		return errcode;
 
+	/* no more tokens left.  */
+	payload = strtok(NULL, " ,");
+	if (payload)
+		return -err_parse_trailing_tokens;
+
 	return 0;
 }
 
-- 
2.43.0


From f0d06d424cf9c5efefcf17c86b8a5883b65f58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 47/55] fix: pttc: initialize packets

The vector of a cfe packet of an unknown type was not initialized if the
directive does not specify it.
---
 pttc/src/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 390f2a5..33fc8f8 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -1315,6 +1315,8 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 	directive = pd->name;
 	payload = pd->payload;
 
+	memset(&packet, 0, sizeof(packet));
+
 	if (strcmp(directive, "psb") == 0) {
 		errcode = parse_empty(payload);
 		if (errcode < 0) {
-- 
2.43.0


From 80bc61b74c1a3d93b6560f8751167688be3489a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:28 +0000
Subject: [PATCH 48/55] fix: pttc: diagnose a missing argument to --cpu

---
 pttc/src/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pttc/src/main.c b/pttc/src/main.c
index 09b676b..882007c 100644
--- a/pttc/src/main.c
+++ b/pttc/src/main.c
@@ -73,6 +73,12 @@ int main(int argc, char *argv[])
 			return 0;
 		}
 		if (strcmp(arg, "--cpu") == 0) {
+			if (argc <= i) {
+				fprintf(stderr, "%s: --cpu: missing argument.\n",
+					prog);
+				return 1;
+			}
+
 			arg = argv[i++];
 
 			if (strcmp(arg, "none") == 0) {
-- 
2.43.0


From 0338389ec10e8bd3c7cb20c89b4e6f9870c73619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:19 +0000
Subject: [PATCH 49/55] fix: pttc: refuse tnt directives without branches

There is no such packet.  The bytes that were written for it decode as
something else or not at all.
---
 pttc/src/parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index 33fc8f8..27efed9 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -3347,7 +3347,7 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 	*tnt = 0ull;
 
 	if (!payload)
-		return 0;
+		return -err_parse_no_args;
 
 	while (*payload != '\0') {
 		c = *payload;
@@ -3371,6 +3371,9 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 		}
 	}
 
+	if (!*size)
+		return -err_parse_no_args;
+
 	return 0;
 }
 
-- 
2.43.0


From bf3023f621f00a7fdb81355727d0cdc40e02fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 50/55] fix: pttc: source line behind long opcodes

Opcodes and data that do not fit into one line of the listing continue on the
next line.  We counted each of them as one line of the source.  Behind the next
%line directive, which yasm adds for macros, we repeated the directives that
we were ahead.
---
 pttc/include/yasm.h |  5 +++++
 pttc/src/yasm.c     | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/pttc/include/yasm.h b/pttc/include/yasm.h
index bdabb9a..e286ed8 100644
--- a/pttc/include/yasm.h
+++ b/pttc/include/yasm.h
@@ -183,6 +183,11 @@ struct yasm {
 	/* Current line number in the lstfile.  */
 	int lst_curr_line;
 
+	/* a flag saying whether the current line number in .lst file
+	 * continues the line before.
+	 */
+	int lst_continued;
+
 	/* The list of labels found in the lstfile.  */
 	struct label *l;
 };
diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 8058065..227eddf 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -834,6 +834,33 @@ int yasm_lookup_label(const struct yasm *y, uint64_t *addr,
 	return l_lookup(y->l, addr, labelname);
 }
 
+/* Checks whether the .lst file line @s is continued on the next line.
+ *
+ * This is the case if there are too many bytes to fit into a single line.
+ *
+ * Returns a non-zero value if it is; zero otherwise.
+ */
+static int lst_is_continued(const char *s)
+{
+	size_t size;
+
+	/* skip line number count.  */
+	s += strspn(s, " ");
+	s += strspn(s, "0123456789");
+
+	/* addresses have at least eight digits.  */
+	s += strspn(s, " ");
+	size = strspn(s, hex_digits);
+	if (size < 8 || s[size] != ' ')
+		return 0;
+
+	s += size;
+	s += strspn(s, " ");
+	size = strspn(s, hex_digits);
+
+	return size && s[size] == '-' && (!s[size + 1] || s[size + 1] == ' ');
+}
+
 static int yasm_advance_next_line(struct yasm *y)
 {
 	char s[FILENAME_MAX+1];
@@ -846,6 +873,8 @@ static int yasm_advance_next_line(struct yasm *y)
 
 
 	for (;;) {
+		int continued;
+
 		errcode = fl_getline(y->fl, s, sizeof(s), y->lstfile,
 				     (size_t) y->lst_curr_line);
 		/* always advance in lst file.  */
@@ -854,6 +883,14 @@ static int yasm_advance_next_line(struct yasm *y)
 		if (errcode < 0)
 			break;
 
+		/* there is one source line for a line and its
+		 * continuations.
+		 */
+		continued = y->lst_continued;
+		y->lst_continued = lst_is_continued(s);
+		if (continued)
+			continue;
+
 		/* if the current lst file line is a line directive, set
 		 * state information to this file, line and increment
 		 * and continue.
-- 
2.43.0


From d773268fdb8efe5485f83990586368f34659f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 51/55] fix: pt_blk_time and pt_blk_core_bus_ratio ignored
 missing time and ratio and refused NULL

pt_blk_time() refused a NULL lost_mtc or lost_cyc and never answered
-pte_no_time; pt_blk_core_bus_ratio() never answered -pte_no_cbr.
---
 libipt/src/pt_block_decoder.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 855ea3d..cec985a 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -622,12 +622,18 @@ pt_blk_get_config(const struct pt_block_decoder *decoder)
 int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 		uint32_t *lost_mtc, uint32_t *lost_cyc)
 {
-	if (!decoder || !time || !lost_mtc || !lost_cyc)
+	if (!decoder || !time)
 		return -pte_invalid;
 
 	*time = decoder->tsc;
-	*lost_mtc = decoder->lost_mtc;
-	*lost_cyc = decoder->lost_cyc;
+
+	if (lost_mtc)
+		*lost_mtc = decoder->lost_mtc;
+	if (lost_cyc)
+		*lost_cyc = decoder->lost_cyc;
+
+	if (!decoder->has_tsc)
+		return -pte_no_time;
 
 	return 0;
 }
@@ -637,6 +643,9 @@ int pt_blk_core_bus_ratio(struct pt_block_decoder *decoder, uint32_t *cbr)
 	if (!decoder || !cbr)
 		return -pte_invalid;
 
+	if (!decoder->cbr)
+		return -pte_no_cbr;
+
 	*cbr = decoder->cbr;
 
 	return 0;
-- 
2.43.0


From 6789773cb7487caf2c611b1fecdd63da5baaf561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:53 +0000
Subject: [PATCH 52/55] fix: pt_sb_get_context_by_pid: incomplete kernel image
 when out of memory

---
 sideband/src/pt_sb_session.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sideband/src/pt_sb_session.c b/sideband/src/pt_sb_session.c
index 1a8e043..fc76649 100644
--- a/sideband/src/pt_sb_session.c
+++ b/sideband/src/pt_sb_session.c
@@ -155,9 +155,11 @@ static int pt_sb_add_context_by_pid(struct pt_sb_context **pcontext,
 		return -pte_nomem;
 
 	errcode = pt_image_copy(context->image, kernel);
-	if (errcode < 0) {
+	if (errcode) {
 		(void) pt_sb_ctx_put(context);
-		return errcode;
+
+		/* We need all kernel sections. */
+		return (errcode < 0) ? errcode : -pte_nomem;
 	}
 
 	context->next = session->contexts;
-- 
2.43.0


From 25f7736579b1ef83bcc7a98337d32570c1460d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 53/55] fix: block decoder must not report instructions while
 tracing is disabled

pt_blk_proceed_one_insn() is used to reach the location of an event.  When
tracing is already disabled, e.g. on a second disabled event in damaged trace,
it added the instruction at the last known address to the block.  Fail with
pte_no_enable as the instruction flow decoder does.
---
 libipt/src/pt_block_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index cec985a..dd90650 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -885,6 +885,10 @@ static int pt_blk_proceed_one_insn(struct pt_block_decoder *decoder,
 	if (!decoder || !block || !pinsn || !piext)
 		return -pte_internal;
 
+	/* We must not proceed while tracing is disabled. */
+	if (!decoder->enabled)
+		return -pte_no_enable;
+
 	/* There's nothing to do if there is no room in @block. */
 	ninsn = block->ninsn + 1;
 	if (!ninsn)
-- 
2.43.0


From 0a2ce2353e144ceac6b396b976a420348e292e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 54/55] fix: block decoder must synchronize onto a PSB+ with
 tracing disabled

pt_blk_start() did not stop at the disabled status update but continued into
the packets behind the PSB+, so that an error there failed synchronization.
---
 libipt/src/pt_block_decoder.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index dd90650..30539e9 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -469,6 +469,9 @@ static int pt_blk_start(struct pt_block_decoder *decoder)
 			decoder->ip = ev.variant.enabled.ip;
 			break;
 
+		case ptev_disabled:
+			break;
+
 		default:
 			continue;
 		}
-- 
2.43.0


From 0f1e2b8f7cbe6c8b223c424b9fd3dc25b8812a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:24 +0000
Subject: [PATCH 55/55] fix: async branch without destination

pt_insn_process_async_branch() and pt_blk_process_async_branch() continued at
address zero if the destination is suppressed.  Fail with pte_noip, as they do
for enabled events.
---
 libipt/src/pt_block_decoder.c | 4 ++++
 libipt/src/pt_insn_decoder.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 30539e9..0b97b49 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -4047,6 +4047,10 @@ static int pt_blk_process_async_branch(struct pt_block_decoder *decoder,
 	if (!decoder->enabled)
 		return -pte_bad_context;
 
+	/* We do need an IP to proceed. */
+	if (ev->ip_suppressed)
+		return -pte_noip;
+
 	/* Jump to the branch destination.  We will continue from there in the
 	 * next iteration.
 	 */
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 762a2a2..f00e689 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -1817,6 +1817,10 @@ static int pt_insn_process_async_branch(struct pt_insn_decoder *decoder)
 	if (!decoder->enabled)
 		return -pte_bad_context;
 
+	/* We do need an IP to proceed. */
+	if (ev->ip_suppressed)
+		return -pte_noip;
+
 	decoder->ip = ev->variant.async_branch.to;
 
 	/* This event provides a TRIG anchor IP. */
-- 
2.43.0

