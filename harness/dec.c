/* Histories of the packet, event and query decoder (C03-C06, C10, C11, C20).
 *
 * stdin, one history per line:
 *   <layer p|e|q> <shift> <config> <hex> <op> <op> ...
 * ops: F forward, B backward, S<n> set (decimal), N next (p: packet, e: event),
 *   E event, C cond, I indirect (q), X whatever the status asks for (q),
 *   R<n> repeat N (p, e) or X (q) up to n times while there is no error,
 *   L the documented decode loop with forward synchronization, ended after a
 *   generous number of calls.
 */
#include "vev.h"

static int layer, first, st;
static struct pt_packet_decoder *pd;
static struct pt_event_decoder *ed;
static struct pt_query_decoder *qd;

static void where(const char *op)
{
	uint64_t off = 0, so = 0;
	int eo, es;

	switch (layer) {
	case 'p':
		eo = pt_pkt_get_offset(pd, &off);
		es = pt_pkt_get_sync_offset(pd, &so);
		break;
	case 'e':
		eo = pt_evt_get_offset(ed, &off);
		es = pt_evt_get_sync_offset(ed, &so);
		break;
	default:
		eo = pt_qry_get_offset(qd, &off);
		es = pt_qry_get_sync_offset(qd, &so);
		break;
	}
	J("%s{\"op\":\"%s\",\"e\":\"%s\",\"st\":%d,\"off\":%lld,\"so\":%lld",
	  first ? "" : ",", op, ename(st), st < 0 ? 0 : st,
	  eo < 0 ? -1ll : (long long) off, es < 0 ? -1ll : (long long) so);
	first = 0;
	if (layer == 'q') {
		uint64_t tsc = 0;
		uint32_t lm = 0, lc = 0, cbr = 0;
		int e;

		e = pt_qry_time(qd, &tsc, &lm, &lc);
		J(",\"te\":\"%s\",\"tsc\":", ename(e));
		jw(e == -pte_no_time ? 0 : tsc);
		J(",\"lm\":%u,\"lc\":%u", lm, lc);
		e = pt_qry_core_bus_ratio(qd, &cbr);
		J(",\"ce\":\"%s\",\"cbr\":%u", ename(e), e < 0 ? 0 : cbr);
	}
}

static void sync_op(char op, uint64_t off)
{
	uint64_t ip = 0;
	char name[2] = { op, 0 };

	switch (layer) {
	case 'p':
		st = op == 'F' ? pt_pkt_sync_forward(pd) :
			op == 'B' ? pt_pkt_sync_backward(pd) :
			pt_pkt_sync_set(pd, off);
		break;
	case 'e':
		st = op == 'F' ? pt_evt_sync_forward(ed) :
			op == 'B' ? pt_evt_sync_backward(ed) :
			pt_evt_sync_set(ed, off);
		break;
	default:
		st = op == 'F' ? pt_qry_sync_forward(qd, &ip) :
			op == 'B' ? pt_qry_sync_backward(qd, &ip) :
			pt_qry_sync_set(qd, &ip, off);
		break;
	}
	where(name);
	if (op == 'S')
		J(",\"arg\":%lld", (long long) off);
	if (layer == 'q') {
		J(",\"ip\":");
		jw(ip);
	}
	J("}");
}

static void next_op(void)
{
	if (layer == 'p') {
		struct pt_packet pkt;

		memset(&pkt, 0xcc, sizeof(pkt));
		st = pt_pkt_next(pd, &pkt, sizeof(pkt));
		where("N");
		J(",\"pkt\":");
		if (st < 0)
			J("{\"t\":\"\"}");
		else
			jpkt(&pkt);
		J("}");
	} else {
		struct pt_event ev;

		memset(&ev, 0xcc, sizeof(ev));
		st = pt_evt_next(ed, &ev, sizeof(ev));
		where("N");
		J(",\"ev\":");
		if (st < 0)
			J("{\"t\":\"\"}");
		else
			jev(&ev);
		J("}");
	}
}

static void qry_op(char op)
{
	char name[2] = { op, 0 };

	if (op == 'E') {
		struct pt_event ev;

		memset(&ev, 0xcc, sizeof(ev));
		st = pt_qry_event(qd, &ev, sizeof(ev));
		where(name);
		J(",\"ev\":");
		if (st < 0)
			J("{\"t\":\"\"}");
		else
			jev(&ev);
		J("}");
	} else if (op == 'C') {
		int taken = -1;

		st = pt_qry_cond_branch(qd, &taken);
		where(name);
		J(",\"tk\":%d}", taken);
	} else {
		uint64_t ip = 0;

		st = pt_qry_indirect_branch(qd, &ip);
		where(name);
		J(",\"ip\":");
		jw(ip);
		J("}");
	}
}

/* What the status of the last successful call asks for. */
static int last_status;
static void auto_op(void)
{
	if (layer != 'q') {
		next_op();
		return;
	}
	if (last_status & pts_event_pending)
		qry_op('E');
	else {
		qry_op('C');
		if (st == -pte_bad_query)
			qry_op('I');
	}
}

int main(void)
{
	static char line[1 << 20];

	vout = stdout;
	while (fgets(line, sizeof(line), stdin)) {
		char *save = NULL, *tok, cfgs[512];
		struct pt_config config, *ucfg;
		uint8_t *base, *buf;
		size_t n;
		unsigned shift;
		int k, max, loop;

		vcase();
		tok = strtok_r(line, " \n", &save);
		if (!tok)
			continue;
		layer = tok[0];
		shift = (unsigned) atoi(strtok_r(NULL, " \n", &save));
		snprintf(cfgs, sizeof(cfgs), "%s",
			 strtok_r(NULL, " \n", &save));
		J("{\"layer\":\"%c\",\"c\":{", layer);
		vconfig(&config, cfgs, layer);
		buf = vbuffer(strtok_r(NULL, " \n", &save), shift, &n, &base);
		J(",\"buf\":");
		jbytes(buf, n);
		J("},\"ops\":[");
		config.begin = buf;
		config.end = buf + n;
		pd = NULL;
		ed = NULL;
		qd = NULL;
		ucfg = vuser(&config);
		switch (layer) {
		case 'p': pd = pt_pkt_alloc_decoder(ucfg); break;
		case 'e': ed = pt_evt_alloc_decoder(ucfg); break;
		case 'q': qd = pt_qry_alloc_decoder(ucfg); break;
		}
		vuser_done(ucfg);
		if (!pd && !ed && !qd)
			abort();
		first = 1;
		loop = 0;
		last_status = 0;
		while ((tok = strtok_r(NULL, " \n", &save))) {
			switch (tok[0]) {
			case 'F':
			case 'B':
				sync_op(tok[0], 0);
				break;
			case 'S':
				sync_op('S', strtoull(tok + 1, NULL, 10));
				break;
			case 'N':
				next_op();
				break;
			case 'E': case 'C': case 'I':
				qry_op(tok[0]);
				break;
			case 'X':
				auto_op();
				break;
			case 'R':
				max = atoi(tok + 1);
				for (k = 0; k < max; ++k) {
					auto_op();
					if (st < 0)
						break;
					last_status = st;
				}
				break;
			case 'L':
				loop = 1;
				max = atoi(tok + 1);
				if (!max)
					max = 40 * (int) n + 50;
				for (k = 0; k < max;) {
					sync_op('F', 0);
					k += 1;
					if (st < 0) {
						if (st == -pte_eos)
							break;
						continue;
					}
					last_status = st;
					while (k < max) {
						auto_op();
						k += 1;
						if (st < 0)
							break;
						last_status = st;
					}
				}
				break;
			}
			if (st >= 0)
				last_status = st;
		}
		J("],\"loop\":%d}\n", loop);
		pt_pkt_free_decoder(pd);
		pt_evt_free_decoder(ed);
		pt_qry_free_decoder(qd);
		free(base);
	}
	return 0;
}
