/* Perf event sideband: channels, events, and the images that are chosen.
 * Runs in the directory given as argument; see checks/c16.py for the cases. */
#include "vj.h"
#include "libipt-sb.h"
#include "pt_image.h"
#include "pt_asid.h"

static int in_op, first;
static long n_mem, fail_at = -1, oom;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
void __real_free(void *);
static int fails(void)
{
	if (!in_op || fail_at < 0 || fail_at-- != 0)
		return 0;
	oom = 1;
	return 1;
}
static void *got(void *p)
{
	if (p && in_op)
		n_mem += 1;
	return p;
}
void *__wrap_malloc(size_t n)
{
	return fails() ? NULL : got(__real_malloc(n));
}
void *__wrap_calloc(size_t n, size_t m)
{
	return fails() ? NULL : got(__real_calloc(n, m));
}
void *__wrap_realloc(void *p, size_t n)
{
	if (fails())
		return NULL;
	return p ? __real_realloc(p, n) : got(__real_realloc(p, n));
}
char *__wrap_strdup(const char *s)
{
	return fails() ? NULL : got(__real_strdup(s));
}
void __wrap_free(void *p)
{
	if (p && in_op)
		n_mem -= 1;
	__real_free(p);
}
#define OP(x) do { in_op = 1; x; in_op = 0; } while (0)

struct chan {
	struct pt_sb_pevent_config c;
	char file[32];
};
static struct chan ch[8];
static struct pt_sb_session *ses;
static struct pt_image_section_cache *isc;
static uint64_t pids[16], probes[32];
static int nch, npids, nprobes, mode, swcalls, swfail;
static struct pt_image *img0, *img;

#define S(...) (J(first ? "{" : ",{"), first = 0, J(__VA_ARGS__), J("}"))

static void owners(const struct pt_image *im)
{
	int i, n = 0;

	J("[");
	for (i = 0; i < npids; ++i) {
		struct pt_sb_context *x = NULL;

		if (pt_sb_find_context_by_pid(&x, ses, (uint32_t) pids[i]) < 0
		    || !x || pt_sb_ctx_image(x) != im)
			continue;
		if (n++)
			J(",");
		jw(pids[i]);
	}
	J("]");
}
static void show(struct pt_image *im)
{
	int i;

	J("[");
	for (i = 0; i < nprobes; ++i) {
		struct pt_asid a;
		uint8_t b[8];
		int n, isid = 0;

		pt_asid_init(&a);
		OP(n = pt_image_read(im, &isid, b, 8, &a, probes[i]));
		if (i)
			J(",");
		jbytes(b, n < 0 ? 0 : (size_t) n);
	}
	J("]");
}
static int on_error(int e, const char *f, uint64_t off, void *priv)
{
	static const char *const warn[] = {
		"", "lost", "trace_lost", "section_lost"
	};
	int d = 0;

	in_op = 0;
	(void) priv;
	if (f)
		sscanf(f, "ch%d", &d);
	J(first ? "{" : ",{");
	first = 0;
	J("\"k\":\"err\",\"e\":\"%s\",\"d\":%d,\"off\":%ld}",
	  e < 0 ? errname(e) : e < 4 ? warn[e] : "?", d, (long) off);
	in_op = 1;
	return mode == 2 && e < 0 ? e : 0;
}
static int on_switch(const struct pt_sb_context *c, void *priv)
{
	in_op = 0;
	(void) priv;
	J(first ? "{" : ",{");
	first = 0;
	J("\"k\":\"sw\",\"pids\":");
	owners(pt_sb_ctx_image(c));
	J("}");
	in_op = 1;
	return ++swcalls == swfail ? -pte_bad_context : 0;
}

static FILE *out;
static char *text;
static size_t ntext;

static void out_begin(void)
{
	text = NULL;
	out = open_memstream(&text, &ntext);
}
static void out_end(void)
{
	fclose(out);
	J(",\"text\":");
	jbytes((uint8_t *) text, ntext);
	free(text);
}

static uint64_t num(char **s)
{
	uint64_t v = strtoull(*s, s, 16);

	if (**s == ',')
		++*s;
	return v;
}

static const struct { const char *n; enum pt_event_type t; } evs[] = {
#define E(x) { #x, ptev_##x }
	E(enabled), E(disabled), E(async_disabled), E(async_branch), E(paging),
	E(async_paging), E(overflow), E(exec_mode), E(tsx), E(stop), E(vmcs),
	E(async_vmcs), E(exstop), E(mwait), E(pwre), E(pwrx), E(ptwrite),
	E(tick), E(cbr), E(mnt), E(tip), E(tnt), E(iflags), E(interrupt),
	E(iret), E(smi), E(rsm), E(init), E(vmentry), E(vmexit), E(shutdown),
	E(uintr), E(uiret)
#undef E
};
static void set_ip(struct pt_event *ev, uint64_t ip, uint64_t at)
{
	switch (ev->type) {
	case ptev_async_disabled:
		ev->variant.async_disabled.at = at;
		ev->variant.async_disabled.ip = ip;
		break;
	case ptev_async_branch:
		ev->variant.async_branch.from = at;
		ev->variant.async_branch.to = ip;
		break;
#define E(x) case ptev_##x: ev->variant.x.ip = ip; break
	E(enabled); E(disabled); E(async_paging); E(overflow); E(exec_mode);
	E(tsx); E(exstop); E(mwait); E(ptwrite); E(tick); E(tip); E(iflags);
	E(interrupt); E(iret); E(smi); E(rsm); E(init); E(vmentry);
	E(vmexit); E(shutdown); E(uintr); E(uiret);
#undef E
	default:
		memset(&ev->variant, 0xff, sizeof(ev->variant));
	}
}

/* C<prim>;<begin>;<end>;<size>,<st>,<shift>,<mult>,<zero>[,<id>:<st>];
 * <tsc offset>;<kernel start>;<root>;<x64>;<x32>;<ia32>;<bytes>;<file> */
static char *field(char **s)
{
	char *f = *s, *e = strchr(f, ';');

	if (e) {
		*e = 0;
		*s = e + 1;
	}
	return f;
}
static char *path(char **s)
{
	char *f = field(s);

	return f[0] == '-' ? NULL : f;
}
static void channel(char *s)
{
	struct chan *c = &ch[nch++];
	struct pt_sb_pevent_config *p = &c->c;
	struct pev_sample_config *sc;
	struct pev_sample_type st[8];
	uint8_t *b;
	size_t len;
	char *f;
	int n = 0;

	memset(p, 0, sizeof(*p));
	p->size = sizeof(*p);
	p->primary = field(&s)[0] == '1';
	p->begin = strtoull(field(&s), NULL, 10);
	p->end = strtoull(field(&s), NULL, 10);
	f = field(&s);
	p->sample_type = num(&f);
	p->time_shift = (uint16_t) num(&f);
	p->time_mult = (uint32_t) num(&f);
	p->time_zero = num(&f);
	while (*f && n < 8) {
		st[n].identifier = num(&f);
		++f;
		st[n++].sample_type = num(&f);
	}
	if (n) {
		sc = malloc(sizeof(*sc) + n * sizeof(st[0]));
		sc->nstypes = (uint8_t) n;
		memcpy(sc->stypes, st, n * sizeof(st[0]));
		p->sample_config = sc;
	}
	p->tsc_offset = strtoull(field(&s), NULL, 16);
	p->kernel_start = strtoull(field(&s), NULL, 16);
	p->sysroot = path(&s);
	p->vdso_x64 = path(&s);
	p->vdso_x32 = path(&s);
	p->vdso_ia32 = path(&s);
	b = unhex(field(&s), &len);
	snprintf(c->file, sizeof(c->file), "ch%d", nch);
	if (s[0] == 'f') {
		FILE *o = fopen(c->file, "wb");

		fwrite(b, 1, len, o);
		fclose(o);
	} else
		remove(c->file);
	if (s[0] != '-')
		p->filename = c->file;
	free(b);
}

static void one(char *line)
{
	char *tok, *save = NULL, *p, *q;
	int e, i, cached = 0, nosw = 0;

	nch = npids = nprobes = mode = swcalls = swfail = 0;
	n_mem = 0;
	fail_at = -1;
	first = 1;
	isc = NULL;
	ses = NULL;
	J("{\"ops\":[");
	OP(img0 = img = pt_image_alloc("none"));
	for (tok = strtok_r(line, " \n", &save); tok;
	     tok = strtok_r(NULL, " \n", &save)) {
		struct pt_sb_context *x = NULL;

		p = tok + 1;
		if (strchr("KanedqrgZ", *tok) && !ses) {
			OP(isc = cached ? pt_iscache_alloc("c") : NULL);
			OP(ses = pt_sb_alloc(isc));
			if (mode)
				OP(pt_sb_notify_error(ses, on_error, NULL));
			if (!nosw)
				OP(pt_sb_notify_switch(ses, on_switch, NULL));
		}
		switch (*tok) {
		case 'C': channel(p); break;
		case 'I': cached = 1; break;
		case 'W': nosw = 1; break;
		case 'm': mode = atoi(p); break;
		case 'w': swfail = atoi(p); break;
		case 'p': while (*p) pids[npids++] = num(&p); break;
		case 'P': while (*p) probes[nprobes++] = num(&p); break;
		case 'K': {
			uint64_t f, off, len, a;

			f = num(&p); off = num(&p); len = num(&p); a = num(&p);
			OP(e = pt_image_add_file(pt_sb_kernel_image(ses), p,
						 off, len, NULL, a));
			S("\"k\":\"kern\",\"f\":%d,\"off\":%d,\"len\":%d,"
			  "\"a\":%d,\"e\":\"%s\"", (int) f, (int) off,
			  (int) len, (int) a, ename(e));
			break;
		}
		case 'a': {
			struct pt_sb_pevent_config *c;

			i = (int) strtol(p, &q, 10);
			oom = 0;
			fail_at = *q == '!' ? atoi(q + 1) : -1;
			/* The configuration is the caller's. */
			c = malloc(sizeof(*c));
			*c = ch[i - 1].c;
			OP(e = pt_sb_alloc_pevent_decoder(ses, c));
			fail_at = -1;
			memset(c, 0xa5, sizeof(*c));
			free(c);
			S("\"k\":\"alloc\",\"d\":%d,\"e\":\"%s\",\"oom\":%ld",
			  i, ename(e), oom);
			break;
		}
		case 'n':
			J(first ? "{" : ",{");
			J("\"k\":\"init\",\"notes\":[");
			first = 1;
			OP(e = pt_sb_init_decoders(ses));
			first = 0;
			J("],\"e\":\"%s\"}", ename(e));
			break;
		case 'e': {
			struct pt_event *ev = malloc(sizeof(*ev));
			uint64_t ip, at;
			unsigned t = (unsigned) num(&p);
			int pf;

			memset(ev, 0, sizeof(*ev));
			ev->type = evs[t].t;
			ev->tsc = num(&p);
			ip = num(&p);
			ev->ip_suppressed = num(&p) & 1;
			at = num(&p);
			ev->has_tsc = num(&p) & 1;
			pf = *p ? (int) num(&p) : -1;
			set_ip(ev, ip, at);
			J(first ? "{" : ",{");
			J("\"k\":\"event\",\"ty\":\"%s\",\"t\":", evs[t].n);
			jw(ev->tsc);
			J(",\"ip\":");
			jw(ip);
			J(",\"at\":");
			jw(at);
			J(",\"sup\":%u,\"notes\":[", ev->ip_suppressed);
			first = 1;
			out_begin();
			OP(e = pt_sb_event(ses, &img, ev, sizeof(*ev),
					   pf < 0 ? NULL : out,
					   pf < 0 ? 0 : (uint32_t) pf));
			first = 0;
			free(ev);
			J("],\"pf\":%d", pf);
			out_end();
			J(",\"e\":\"%s\",\"sel\":%d,\"im\":", ename(e),
			  img != img0);
			owners(img);
			J(",\"p\":");
			show(img);
			J("}");
			break;
		}
		case 'd': {
			uint64_t t;
			uint32_t pf = (uint32_t) num(&p);

			t = num(&p);
			J(first ? "{" : ",{");
			J("\"k\":\"dump\",\"t\":");
			jw(t);
			J(",\"notes\":[");
			first = 1;
			out_begin();
			OP(e = pt_sb_dump(ses, out, pf, t));
			first = 0;
			J("],\"pf\":%u", pf);
			out_end();
			J(",\"e\":\"%s\"}", ename(e));
			break;
		}
		case 'q': case 'r': case 'g': {
			uint64_t pid = num(&p);

			OP(e = *tok == 'g' ?
			   pt_sb_get_context_by_pid(&x, ses, (uint32_t) pid) :
			   pt_sb_find_context_by_pid(&x, ses, (uint32_t) pid));
			if (*tok == 'r' && !x)
				break;
			J(first ? "{" : ",{");
			first = 0;
			J("\"k\":\"%s\",\"pid\":", *tok == 'q' ? "find" :
			  *tok == 'g' ? "get" : "rm");
			jw(pid);
			J(",\"found\":%d,\"p\":", x != NULL);
			if (x && *tok != 'r')
				show(pt_sb_ctx_image(x));
			else
				J("[]");
			if (*tok == 'r')
				OP(e = pt_sb_remove_context(ses, x));
			J(",\"e\":\"%s\"}", ename(e));
			break;
		}
		case 'Z':
			OP(pt_sb_free(ses));
			OP(pt_iscache_free(isc));
			OP(pt_image_free(img0));
			S("\"k\":\"free\",\"mem\":%ld", n_mem);
			break;
		}
	}
	J("]}\n");
	for (i = 0; i < nch; ++i)
		free(ch[i].c.sample_config);
}

int main(int argc, char **argv)
{
	char *line = NULL;
	size_t cap = 0;

	if (argc < 2 || chdir(argv[1]))
		return 97;
	vout = stdout;
	while (getline(&line, &cap, stdin) > 0) {
		vcase();
		one(line);
	}
	fflush(vout);
	return 0;
}
