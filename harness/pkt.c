/* Packet encoder/decoder driver (C01, C02).
 *
 * stdin, one case per line:
 *   E <room> <guard> <packet>   encode into a buffer of <room> bytes, then
 *                               decode what was written
 *   D <off> <cb> <hex>          decode at <off> of the given trace buffer with
 *                               an unknown-packet callback returning <cb>
 *                               ("none": no callback)
 */
#include "vj.h"

static int cb_size;
static int cb_calls;
static int64_t cb_off;
static int unk(struct pt_packet_unknown *u, const struct pt_config *c,
	       const uint8_t *pos, void *ctx)
{
	(void) ctx;
	cb_calls += 1;
	cb_off = pos - c->begin;
	if (u->packet != pos)
		cb_off = -1;
	return cb_size;
}

static int dec_at(uint8_t *buf, size_t n, uint64_t off, const char *cb,
		  const char *key)
{
	struct pt_config config;
	struct pt_packet_decoder *d;
	struct pt_packet pkt;
	uint64_t after = 0, sync = 0;
	int st, st2, s0, i;

	pt_config_init(&config);
	config.begin = buf;
	config.end = buf + n;
	cb_calls = 0;
	cb_off = 0;
	if (strcmp(cb, "none")) {
		config.decode.callback = unk;
		cb_size = atoi(cb);
	}
	d = pt_pkt_alloc_decoder(&config);
	if (!d)
		abort();
	s0 = pt_pkt_sync_set(d, off);
	memset(&pkt, 0xcc, sizeof(pkt));
	st = pt_pkt_next(d, &pkt, sizeof(pkt));
	(void) pt_pkt_get_offset(d, &after);
	(void) pt_pkt_get_sync_offset(d, &sync);
	/* Asking again after an error must give the same answer. */
	st2 = st;
	if (st < 0)
		for (i = 0; i < 2; ++i) {
			struct pt_packet again;
			uint64_t a2 = 0;

			memset(&again, 0x33, sizeof(again));
			st2 = pt_pkt_next(d, &again, sizeof(again));
			(void) pt_pkt_get_offset(d, &a2);
			if (a2 != after)
				st2 = 77;
		}
	J("\"%s\":{\"st\":%d,\"sync\":\"%s\",\"err\":\"%s\",\"again\":\"%s\",\"n\":%d,"
	  "\"after\":%d,\"so\":%d,\"cbn\":%d,\"cbo\":%d,\"pkt\":", key,
	  st, ename(s0), ename(st), st2 == 77 ? "moved" : ename(st2),
	  st < 0 ? 0 : st, (int) after, (int) sync, cb_calls, (int) cb_off);
	if (st < 0)
		J("{\"t\":\"\"}");
	else {
		if (pkt.size != st)
			J("{\"t\":\"size?\"}");
		else
			jpkt(&pkt);
	}
	J("}");
	pt_pkt_free_decoder(d);
	return st;
}

int main(void)
{
	char *line = NULL;
	size_t cap = 0;
	vout = stdout;
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);

	while (getline(&line, &cap, stdin) > 0) {
		vcase();
		if (line[0] == 'E') {
			struct pt_packet pkt;
			struct pt_config config;
			struct pt_encoder *e;
			uint64_t after = 0;
			uint8_t *buf;
			size_t i, total, dirty = 0;
			int room, guard, used = 0, st;

			sscanf(line, "E %d %d %n", &room, &guard, &used);
			if (parse_pkt(&pkt, line + used) < 0)
				abort();
			/* guard bytes in front inside the buffer */
			total = (size_t) (room + guard);
			if (!total)
				total = 1, guard += 1;
			buf = malloc(total);
			memset(buf, 0xa5, total);
			pt_config_init(&config);
			config.begin = buf;
			config.end = buf + total;
			e = pt_alloc_encoder(&config);
			if (!e || pt_enc_sync_set(e, (uint64_t) guard))
				abort();
			st = pt_enc_next(e, &pkt);
			(void) pt_enc_get_offset(e, &after);
			for (i = 0; i < (size_t) guard; ++i)
				dirty += buf[i] != 0xa5;
			for (i = (size_t) guard + (st > 0 ? (size_t) st : 0);
			     i < total; ++i)
				dirty += buf[i] != 0xa5;
			J("{\"k\":\"E\",\"room\":%d,\"in\":", room);
			if (pkt.type == ppt_mode &&
			    pkt.payload.mode.leaf != pt_mol_exec &&
			    pkt.payload.mode.leaf != pt_mol_tsx)
				J("{\"t\":\"mode_bad\"}");
			else
				jpkt(&pkt);
			J(",\"err\":\"%s\",\"n\":%d,\"moved\":%d,\"dirty\":%d,"
			  "\"bytes\":", ename(st), st < 0 ? 0 : st,
			  (int) after - guard, (int) dirty);
			jbytes(buf + guard, st > 0 ? (size_t) st : 0);
			J(",");
			/* decode what was written, nothing behind it */
			if (st > 0) {
				uint8_t *x = malloc((size_t) st);

				memcpy(x, buf + guard, (size_t) st);
				dec_at(x, (size_t) st, 0, "none", "dec");
				free(x);
			} else
				J("\"dec\":{\"err\":\"none\"}");
			J("}\n");
			pt_free_encoder(e);
			free(buf);
		} else if (line[0] == 'D') {
			char cb[32], *hex = malloc(strlen(line));
			unsigned off;
			size_t n;
			uint8_t *buf;

			sscanf(line, "D %u %31s %s", &off, cb, hex);
			buf = unhex(hex, &n);
			J("{\"k\":\"D\",\"off\":%u,\"cb\":%d,\"buf\":", off,
			  strcmp(cb, "none") ? atoi(cb) : -9999);
			jbytes(buf, n);
			J(",");
			dec_at(buf, n, off, cb, "dec");
			J("}\n");
			free(buf);
			free(hex);
		}
	}
	return 0;
}
