/* Perf event records and times.  See checks/c17.py for the case lines. */
#include "vj.h"
#include "pevent.h"

static struct pev_config cfg;

/* "<size>,<sample type>,<shift>,<mult>,<zero>[,<identifier>:<type>...]" in
 * hex; size: f all, i without the identifiers, s only the sample type, n
 * nothing. */
static struct pev_sample_config *sc;
static void parse_cfg(char *s)
{
	char *p, *save = NULL, k = s[0];
	struct pev_sample_type st[16];
	int n = 0;

	pev_config_init(&cfg);
	if (k == 'i')
		cfg.size = offsetof(struct pev_config, sample_config);
	else if (k == 's')
		cfg.size = offsetof(struct pev_config, time_shift);
	else if (k == 'n')
		cfg.size = sizeof(size_t);
	p = strtok_r(s + 2, ",", &save);
	cfg.sample_type = strtoull(p, NULL, 16);
	p = strtok_r(NULL, ",", &save);
	cfg.time_shift = (uint16_t) strtoul(p, NULL, 16);
	p = strtok_r(NULL, ",", &save);
	cfg.time_mult = (uint32_t) strtoul(p, NULL, 16);
	p = strtok_r(NULL, ",", &save);
	cfg.time_zero = strtoull(p, NULL, 16);
	while ((p = strtok_r(NULL, ",", &save)) && n < 16) {
		char *e;

		st[n].identifier = strtoull(p, &e, 16);
		st[n].sample_type = strtoull(e + 1, NULL, 16);
		++n;
	}
	free(sc);
	sc = NULL;
	if (n) {
		sc = malloc(sizeof(*sc) + n * sizeof(st[0]));
		sc->nstypes = (uint8_t) n;
		memcpy(sc->stypes, st, n * sizeof(st[0]));
		cfg.sample_config = sc;
	}

	J("\"cfg\":{\"st\":");
	jw(cfg.sample_type);
	J(",\"has\":[%s%s%s],\"shift\":%u,\"mult\":",
	  k == 'n' ? "" : "\"st\"", strchr("fi", k) ? ",\"time\"" : "",
	  k == 'f' && n ? ",\"ids\"" : "", cfg.time_shift);
	jw(cfg.time_mult);
	J(",\"zero\":");
	jw(cfg.time_zero);
	J(",\"ids\":[");
	for (int i = 0; i < n; ++i) {
		J("%s{\"id\":", i ? "," : "");
		jw(st[i].identifier);
		J(",\"st\":");
		jw(st[i].sample_type);
		J("}");
	}
	J("]}");
}

static void ws(int n, const uint64_t *v)
{
	J("[");
	for (int i = 0; i < n; ++i) {
		if (i)
			J(",");
		jw(v[i]);
	}
	J("]");
}
#define W(...) do { const uint64_t v[] = { __VA_ARGS__ };	\
		ws(sizeof(v) / sizeof(v[0]), v); } while (0)

static void jev(const struct pev_event *ev)
{
	const char *str = NULL;
	uint64_t v[8];
	int n = 0;

	J("{\"type\":");
	jw(ev->type);
	J(",\"misc\":%u,\"body\":", ev->misc);
	switch (ev->type) {
	case 1: {
		const struct pev_record_mmap *r = ev->record.mmap;
		W(r->pid, r->tid, r->addr, r->len, r->pgoff);
		str = r->filename;
		break;
	}
	case 2: W(ev->record.lost->id, ev->record.lost->lost); break;
	case 3:
		W(ev->record.comm->pid, ev->record.comm->tid);
		str = ev->record.comm->comm;
		break;
	case 4: {
		const struct pev_record_exit *r = ev->record.exit;
		W(r->pid, r->ppid, r->tid, r->ptid, r->time);
		break;
	}
	case 7: {
		const struct pev_record_fork *r = ev->record.fork;
		W(r->pid, r->ppid, r->tid, r->ptid, r->time);
		break;
	}
	case 5: case 6: {
		const struct pev_record_throttle *r = ev->record.throttle;
		W(r->time, r->id, r->stream_id);
		break;
	}
	case 10: {
		const struct pev_record_mmap2 *r = ev->record.mmap2;
		W(r->pid, r->tid, r->addr, r->len, r->pgoff, r->maj, r->min,
		  r->ino, r->ino_generation, r->prot, r->flags);
		str = r->filename;
		break;
	}
	case 11: {
		const struct pev_record_aux *r = ev->record.aux;
		W(r->aux_offset, r->aux_size, r->flags);
		break;
	}
	case 12:
		W(ev->record.itrace_start->pid, ev->record.itrace_start->tid);
		break;
	case 13: W(ev->record.lost_samples->lost); break;
	case 15:
		W(ev->record.switch_cpu_wide->next_prev_pid,
		  ev->record.switch_cpu_wide->next_prev_tid);
		break;
	default:
		J("[]");
	}
	J(",\"str\":");
	jbytes((const uint8_t *) str, str ? strlen(str) : 0);
	J(",\"has\":[");
#define H(f, name) do { if (ev->sample.f) {				\
			J("%s\"%s\"", n ? "," : "", name);		\
			v[n++] = *ev->sample.f; } } while (0)
	if (ev->sample.pid && ev->sample.tid) {
		J("\"tid\"");
		v[n++] = *ev->sample.pid;
		v[n++] = *ev->sample.tid;
	}
	H(time, "time");
	H(id, "id");
	H(stream_id, "sid");
	H(cpu, "cpu");
	H(identifier, "ident");
	J("],\"samples\":");
	ws(n, v);
	J(",\"tsc\":");
	jw(ev->sample.tsc);
	J("}");
}

static void jread(const uint8_t *b, size_t n)
{
	struct pev_event ev;
	int r;

	memset(&ev, 0xcd, sizeof(ev));
	r = pev_read(&ev, b, b + n, &cfg);
	J("{\"e\":\"%s\",\"n\":%d,\"ev\":", ename(r), r < 0 ? 0 : r);
	if (r < 0)
		J("0");
	else
		jev(&ev);
	J("}");
}

static void one(char *line)
{
	char *save = NULL, *k = strtok_r(line, " \n", &save), *p, *q;
	uint64_t f[16], sm[8];
	uint8_t *b;
	size_t n;
	int nf = 0, r;

	J("{\"k\":\"%s\",", k);
	parse_cfg(strtok_r(NULL, " \n", &save));
	p = strtok_r(NULL, " \n", &save);
	if (k[0] == 't' || k[0] == 'f') {
		uint64_t x = strtoull(p, NULL, 16), v = 0;

		r = k[0] == 't' ? pev_time_to_tsc(&v, x, &cfg) :
			pev_time_from_tsc(&v, x, &cfg);
		J(",\"x\":");
		jw(x);
		J(",\"e\":\"%s\",\"v\":", ename(r));
		jw(v);
	} else if (k[0] == 'r') {
		b = unhex(p, &n);
		J(",\"bs\":");
		jbytes(b, n);
		J(",\"r\":");
		jread(b, n);
		free(b);
	} else {
		/* w <cfg> <room> <type> <misc> <fields> <string> <samples> */
		struct pev_event ev;
		size_t room = strtoul(p, NULL, 10), sl;
		uint32_t sample32[4];
		uint8_t *str, *rec;

		pev_event_init(&ev);
		ev.type = strtoul(strtok_r(NULL, " \n", &save), NULL, 10);
		ev.misc = strtoul(strtok_r(NULL, " \n", &save), NULL, 16);
		p = strtok_r(NULL, " \n", &save);
		for (q = p; *q && *q != '-' && nf < 16;) {
			f[nf++] = strtoull(q, &q, 16);
			if (*q == ',')
				++q;
		}
		for (r = nf; r < 16; ++r)
			f[r] = 0;
		str = unhex(strtok_r(NULL, " \n", &save), &sl);
		/* The record in exactly the memory it needs. */
		switch (ev.type) {
#define NEW(t, extra)  rec = malloc(sizeof(struct t) + (extra));	\
		struct t *r_ = (struct t *) rec
		case 1: {
			NEW(pev_record_mmap, sl + 1);
			r_->pid = f[0]; r_->tid = f[1]; r_->addr = f[2];
			r_->len = f[3]; r_->pgoff = f[4];
			memcpy(r_->filename, str, sl);
			r_->filename[sl] = 0;
			ev.record.mmap = r_;
			break;
		}
		case 2: {
			NEW(pev_record_lost, 0);
			r_->id = f[0]; r_->lost = f[1];
			ev.record.lost = r_;
			break;
		}
		case 3: {
			NEW(pev_record_comm, sl + 1);
			r_->pid = f[0]; r_->tid = f[1];
			memcpy(r_->comm, str, sl);
			r_->comm[sl] = 0;
			ev.record.comm = r_;
			break;
		}
		case 4: {
			NEW(pev_record_exit, 0);
			r_->pid = f[0]; r_->ppid = f[1]; r_->tid = f[2];
			r_->ptid = f[3]; r_->time = f[4];
			ev.record.exit = r_;
			break;
		}
		case 7: {
			NEW(pev_record_fork, 0);
			r_->pid = f[0]; r_->ppid = f[1]; r_->tid = f[2];
			r_->ptid = f[3]; r_->time = f[4];
			ev.record.fork = r_;
			break;
		}
		case 5: case 6: {
			NEW(pev_record_throttle, 0);
			r_->time = f[0]; r_->id = f[1]; r_->stream_id = f[2];
			ev.record.throttle = r_;
			break;
		}
		case 10: {
			NEW(pev_record_mmap2, sl + 1);
			r_->pid = f[0]; r_->tid = f[1]; r_->addr = f[2];
			r_->len = f[3]; r_->pgoff = f[4]; r_->maj = f[5];
			r_->min = f[6]; r_->ino = f[7];
			r_->ino_generation = f[8]; r_->prot = f[9];
			r_->flags = f[10];
			memcpy(r_->filename, str, sl);
			r_->filename[sl] = 0;
			ev.record.mmap2 = r_;
			break;
		}
		case 11: {
			NEW(pev_record_aux, 0);
			r_->aux_offset = f[0]; r_->aux_size = f[1];
			r_->flags = f[2];
			ev.record.aux = r_;
			break;
		}
		case 12: {
			NEW(pev_record_itrace_start, 0);
			r_->pid = f[0]; r_->tid = f[1];
			ev.record.itrace_start = r_;
			break;
		}
		case 13: {
			NEW(pev_record_lost_samples, 0);
			r_->lost = f[0];
			ev.record.lost_samples = r_;
			break;
		}
		case 15: {
			NEW(pev_record_switch_cpu_wide, 0);
			r_->next_prev_pid = f[0]; r_->next_prev_tid = f[1];
			ev.record.switch_cpu_wide = r_;
			break;
		}
		default:
			rec = NULL;
		}
		/* <name>=<hex>[:<hex>],... */
		for (p = strtok_r(NULL, " \n", &save), nf = 0; *p && *p != '-';) {
			char *e = strchr(p, '=');
			uint64_t v = strtoull(e + 1, &q, 16);

			sm[nf] = v;
			if (!strncmp(p, "tid", 3)) {
				sample32[0] = v;
				sample32[1] = strtoull(q + 1, &q, 16);
				ev.sample.pid = &sample32[0];
				ev.sample.tid = &sample32[1];
			} else if (!strncmp(p, "time", 4))
				ev.sample.time = &sm[nf];
			else if (!strncmp(p, "id=", 3))
				ev.sample.id = &sm[nf];
			else if (!strncmp(p, "sid", 3))
				ev.sample.stream_id = &sm[nf];
			else if (!strncmp(p, "cpu", 3)) {
				sample32[2] = v;
				ev.sample.cpu = &sample32[2];
			} else
				ev.sample.identifier = &sm[nf];
			++nf;
			p = *q == ',' ? q + 1 : q;
		}
		J(",\"room\":%zu,\"ev\":", room);
		jev(&ev);
		b = malloc(room ? room : 1);
		memset(b, 0xaa, room);
		r = pev_write(&ev, b, b + room, &cfg);
		J(",\"w\":{\"e\":\"%s\",\"n\":%d,\"bs\":", ename(r),
		  r < 0 ? 0 : r);
		jbytes(b, r < 0 ? 0 : r);
		J("},\"r\":");
		if (r < 0)
			J("0");
		else {
			/* Followed by something else. */
			uint8_t *c = malloc(r + 3);

			memcpy(c, b, r);
			memset(c + r, 0x55, 3);
			jread(c, r + 3);
			free(c);
		}
		free(b);
		free(str);
		free(rec);
	}
	J("}\n");
}

int main(void)
{
	char *line = NULL;
	size_t cap = 0;

	vout = stdout;
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	while (getline(&line, &cap, stdin) > 0) {
		vcase();
		one(line);
	}
	fflush(stdout);
	return 0;
}
