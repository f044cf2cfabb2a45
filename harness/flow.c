/* Instruction flow and block decode of traces with memory images
 * (C07-C09, C11, C19-C21, C23).
 *
 * stdin, one case per line:
 *   <i|b> <config> <hex> <image> <sections> <swaps> <start> [<start> ...]
 * image: one letter per way to provide memory, used in turn for the sections:
 *   f  pt_image_add_file()   c<limit>  a section cache with that limit
 *   m  the read memory callback
 *   and optionally t: record the time after each call, ["t",error,tsc,lost
 *   mtc,lost cyc,error,ratio],
 *   and optionally w<n>: decode n times before the recorded one, with the
 *   same section cache
 * sections: img,cr3,vmcs,vaddr,hex;...  (hex numbers, - for none)
 * swaps: n=img,... after n instructions use image img (from 0); - for none
 * start: F: sync forward and continue until the end; f: sync forward once;
 *   S<offset>: sync there; B: sync backward; each decodes until the first
 *   error except for F, which resynchronizes on errors.
 *   A start may be followed by /<n>: stop after n calls.
 *
 * Output: one JSON line per case: a list of records
 *   ["i",ip,size,"hex",class,mode,speculative,cr3,vmcs,isid ok]
 *   ["b",ip,end_ip,ninsn,class,mode,speculative,cr3,vmcs,isid ok,
 *    truncated size,"hex"]
 *   ["e",event], ["x",call,error], ["s",start,error], ["end"]
 */
#include "vev.h"

struct sec {
	unsigned img;
	uint64_t cr3, vmcs, vaddr;
	uint8_t *b;
	size_t n;
	char kind;
	int isid;
	uint64_t off;
};

static struct sec sec[256];
static unsigned nsec, nimg;
static struct pt_image *img[8];
static struct pt_image_section_cache *isc;
static char file[256];
static int rec;

static const char *const cls[] = { "unknown", "other", "call", "return",
	"jump", "cond_jump", "far_call", "far_return", "far_jump", "ptwrite",
	"indirect" };
static const char *cname(int c)
{
	return 0 <= c && c < 11 ? cls[c] : "?";
}

static int mode_bits(enum pt_exec_mode m)
{
	return m == ptem_64bit ? 64 : m == ptem_32bit ? 32 :
		m == ptem_16bit ? 16 : 0;
}

static int match(uint64_t a, uint64_t b)
{
	return a == b || a == pt_asid_no_cr3 || b == pt_asid_no_cr3;
}

static int rdmem(uint8_t *buf, size_t size, const struct pt_asid *asid,
		 uint64_t ip, void *ctx)
{
	unsigned i, im = (unsigned) (uintptr_t) ctx;
	size_t k;

	for (i = nsec; i-- > 0;) {
		struct sec *s = &sec[i];

		if (s->kind != 'm' || s->img != im ||
		    !match(s->cr3, asid->cr3) || !match(s->vmcs, asid->vmcs))
			continue;
		if (ip < s->vaddr || ip - s->vaddr >= s->n)
			continue;
		k = s->n - (size_t) (ip - s->vaddr);
		if (size < k)
			k = size;
		memcpy(buf, s->b + (ip - s->vaddr), k);
		return (int) k;
	}
	return -pte_nomap;
}

static void hexout(const uint8_t *b, unsigned n)
{
	J("\"");
	while (n--)
		J("%02x", *b++);
	J("\"");
}

/* Does the section identified by @isid contain [ip; end]? */
static int isid_ok(int isid, uint64_t ip, uint64_t end)
{
	unsigned i;

	if (!isid)
		return 1;
	for (i = 0; i < nsec; ++i)
		if (sec[i].kind == 'c' && sec[i].isid == isid &&
		    sec[i].vaddr <= ip && ip - sec[i].vaddr < sec[i].n &&
		    sec[i].vaddr <= end && end - sec[i].vaddr < sec[i].n)
			return 1;
	return 0;
}

static struct pt_insn_decoder *id;
static struct pt_block_decoder *bd;
static int st;
static uint64_t total;

static void asid_out(void)
{
	struct pt_asid a;
	int e;

	pt_asid_init(&a);
	e = id ? pt_insn_asid(id, &a, sizeof(a)) :
		pt_blk_asid(bd, &a, sizeof(a));
	if (e < 0)
		J("\"%s\",0", errname(e));
	else
		J("%" PRIu64 ",%" PRIu64, a.cr3, a.vmcs);
}

/* The time after a call. */
static int timed;

static void time_out(void)
{
	uint64_t tsc = 0, t2 = 0;
	uint32_t lm = 0, lc = 0, cbr = 0;
	int e, e2;

	if (!rec || !timed)
		return;
	e = id ? pt_insn_time(id, &tsc, &lm, &lc) :
		pt_blk_time(bd, &tsc, &lm, &lc);
	e2 = id ? pt_insn_time(id, &t2, NULL, NULL) :
		pt_blk_time(bd, &t2, NULL, NULL);
	if (e != e2 || tsc != t2)
		J(",[\"unstable\"]");
	J(",[\"t\",\"%s\",", e < 0 ? errname(e) : "");
	jw(e < 0 ? 0 : tsc);
	e = id ? pt_insn_core_bus_ratio(id, &cbr) :
		pt_blk_core_bus_ratio(bd, &cbr);
	J(",%u,%u,\"%s\",%u]", lm, lc, e < 0 ? errname(e) : "",
	  e < 0 ? 0 : cbr);
}

static void events(void)
{
	while (st >= 0 && (st & pts_event_pending)) {
		struct pt_event ev;

		memset(&ev, 0xcc, sizeof(ev));
		st = id ? pt_insn_event(id, &ev, sizeof(ev)) :
			pt_blk_event(bd, &ev, sizeof(ev));
		if (st < 0) {
			if (rec)
				J(",[\"x\",\"event\",\"%s\"]", errname(st));
			return;
		}
		if (rec) {
			J(",[\"e\",");
			jev(&ev);
			J("]");
		}
		time_out();
	}
}

struct swap { uint64_t n; unsigned img; };
static struct swap swaps[64];
static unsigned nswaps;

static void next(void)
{
	if (id) {
		struct pt_insn in;
		char a[64];

		(void) a;
		memset(&in, 0xcc, sizeof(in));
		in.iclass = ptic_unknown;
		if (rec) {
			/* The address space in force before. */
			J(",[");
			asid_out();
		}
		st = pt_insn_next(id, &in, sizeof(in));
		if (st >= 0 || in.iclass != ptic_unknown) {
			total += 1;
			if (rec) {
				J(",\"i\",%" PRIu64 ",%u,", in.ip, in.size);
				hexout(in.raw, in.size > 15 ? 15 : in.size);
				J(",\"%s\",%d,%u,%d,%u", cname(in.iclass),
				  mode_bits(in.mode), in.speculative,
				  isid_ok(in.isid, in.ip, in.ip),
				  in.truncated);
			}
		} else if (rec)
			J(",\"-\"");
		if (rec) {
			J("]");
			if (st < 0)
				J(",[\"x\",\"next\",\"%s\"]", errname(st));
		}
	} else {
		struct pt_block b;

		memset(&b, 0xcc, sizeof(b));
		b.ninsn = 0;
		if (rec) {
			J(",[");
			asid_out();
		}
		st = pt_blk_next(bd, &b, sizeof(b));
		if (rec) {
			if (b.ninsn) {
				J(",\"b\",%" PRIu64 ",%" PRIu64 ",%u,\"%s\","
				  "%d,%u,%d,%u,", b.ip, b.end_ip, b.ninsn,
				  cname(b.iclass), mode_bits(b.mode),
				  b.speculative,
				  isid_ok(b.isid, b.ip, b.end_ip),
				  b.truncated ? b.size : 0);
				if (b.truncated)
					hexout(b.raw, b.size > 15 ? 15 :
					       b.size);
				else
					J("\"\"");
			} else
				J(",\"-\"");
			J("]");
			if (st < 0)
				J(",[\"x\",\"next\",\"%s\"]", errname(st));
		}
		total += b.ninsn;
	}
}

static int do_sync(const char *op)
{
	switch (*op) {
	case 'F': case 'f':
		return id ? pt_insn_sync_forward(id) : pt_blk_sync_forward(bd);
	case 'B':
		return id ? pt_insn_sync_backward(id) :
			pt_blk_sync_backward(bd);
	default: {
		uint64_t off = strtoull(op + 1, NULL, 10);

		return id ? pt_insn_sync_set(id, off) :
			pt_blk_sync_set(bd, off);
	}
	}
}

static void run(const char *op, size_t tsize)
{
	uint64_t max = 40 * tsize * 300 + 10000, calls = 0, so = 0;
	const char *sl = strchr(op, '/');
	unsigned sw = 0;
	uint64_t lastso = 0;
	int64_t lastbad = -1;
	int synced = 0;

	if (sl)
		max = strtoull(sl + 1, NULL, 10);
	total = 0;
	for (;;) {
		st = do_sync(op);
		if (rec)
			J(",[\"s\",\"%s\",\"%s\"", op,
			  st < 0 ? errname(st) : "");
		if (st < 0) {
			uint64_t off = 0;
			int e = id ? pt_insn_get_offset(id, &off) :
				pt_blk_get_offset(bd, &off);

			if (rec)
				J(",%" PRId64 "]", e < 0 ? -1 : (int64_t) off);
			/* Another one may be good. */
			if (*op == 'F' && st != -pte_eos && e >= 0 &&
			    (int64_t) off > lastbad) {
				lastbad = (int64_t) off;
				continue;
			}
			return;
		}
		if ((id ? pt_insn_get_sync_offset(id, &so) :
		     pt_blk_get_sync_offset(bd, &so)) < 0)
			so = ~0ull;
		if (rec)
			J(",%" PRIu64 "]", so);
		time_out();
		/* Synchronizing forward makes progress. */
		if (*op == 'F' && synced && so <= lastso) {
			J(",[\"noprogress\"]");
			return;
		}
		synced = 1;
		lastso = so;
		for (;;) {
			if (calls++ >= max) {
				if (rec && !sl)
					J(",[\"endless\"]");
				return;
			}
			events();
			if (st < 0)
				break;
			while (sw < nswaps && swaps[sw].n <= total) {
				if (swaps[sw].n < total && rec)
					J(",[\"late\"]");
				if (rec)
					J(",[\"swap\"]");
				if (id)
					pt_insn_set_image(id,
							  img[swaps[sw].img]);
				else
					pt_blk_set_image(bd,
							 img[swaps[sw].img]);
				sw += 1;
			}
			next();
			if (st < 0)
				break;
			time_out();
		}
		/* The end is the end. */
		if (rec && st == -pte_eos) {
			struct pt_insn in;
			struct pt_block b;
			uint64_t off = 0;
			int e = id ? pt_insn_next(id, &in, sizeof(in)) :
				pt_blk_next(bd, &b, sizeof(b));

			J(",[\"after\",\"%s\"", e < 0 ? errname(e) : "");
			e = id ? pt_insn_get_offset(id, &off) :
				pt_blk_get_offset(bd, &off);
			J(",%d]", e >= 0 && off <= tsize);
		} else if (rec) {
			uint64_t off = 0;
			int e = id ? pt_insn_get_offset(id, &off) :
				pt_blk_get_offset(bd, &off);

			J(",[\"off\",%d]", e >= 0 && off <= tsize);
		}
		if (*op != 'F')
			return;
	}
}

static uint64_t num(const char *s)
{
	return *s == '-' ? ~0ull : strtoull(s, NULL, 16);
}

static void image(const char *kinds)
{
	const char *kd = kinds;
	uint64_t limit = ~0ull, off = 0;
	struct pt_asid asid;
	FILE *f;
	unsigned i, k;
	int e;

	nimg = 1;
	for (i = 0; i < nsec; ++i)
		if (nimg <= sec[i].img)
			nimg = sec[i].img + 1;
	isc = NULL;
	if (strchr(kinds, 'c')) {
		limit = strtoull(strchr(kinds, 'c') + 1, NULL, 10);
		isc = pt_iscache_alloc("isc");
		pt_iscache_set_limit(isc, limit);
	}
	for (i = 0; i < nimg; ++i) {
		img[i] = pt_image_alloc("img");
		pt_image_set_callback(img[i], strchr(kinds, 'm') ? rdmem :
				      NULL, (void *) (uintptr_t) i);
	}
	f = fopen(file, "wb");
	if (!f)
		abort();
	for (i = 0; i < nsec; ++i) {
		for (k = 0; k < i; ++k)
			if (sec[k].n == sec[i].n &&
			    !memcmp(sec[k].b, sec[i].b, sec[i].n))
				break;
		/* The same memory at different addresses. */
		if (k < i) {
			sec[i].off = sec[k].off;
			continue;
		}
		fwrite("\xcc\xcc\xcc", 1, i % 4 < 3 ? i % 4 : 0, f);
		off = (uint64_t) ftell(f);
		sec[i].off = off;
		fwrite(sec[i].b, 1, sec[i].n, f);
	}
	fclose(f);
	for (i = 0; i < nsec; ++i) {
		struct sec *s = &sec[i];

		while (*kd && *kd != 'f' && *kd != 'c' && *kd != 'm')
			kd += 1;
		if (!*kd)
			kd = kinds;
		s->kind = *kd++;
		s->isid = 0;
		pt_asid_init(&asid);
		asid.cr3 = s->cr3;
		asid.vmcs = s->vmcs;
		e = 0;
		if (s->kind == 'f')
			e = pt_image_add_file(img[s->img], file, s->off, s->n,
					      &asid, s->vaddr);
		else if (s->kind == 'c') {
			s->isid = pt_iscache_add_file(isc, file, s->off, s->n,
						      s->vaddr);
			if (s->isid <= 0)
				abort();
			e = pt_image_add_cached(img[s->img], isc, s->isid,
						&asid);
		}
		if (e < 0)
			abort();
	}
}

int main(void)
{
	char *line = NULL;
	size_t cap = 0;

	vout = stdout;
	snprintf(file, sizeof(file), "%s/flow-%d", getenv("VTMP") ?: "/tmp",
		 (int) getpid());
	while (getline(&line, &cap, stdin) > 0) {
		char *save = NULL, *layer, *cfgs, *hex, *kinds, *secs, *sws,
			*tok, *s2 = NULL, *starts[16], *p;
		struct pt_config cfg;
		unsigned i, k, nst = 0, warm = 0;
		uint8_t *base, *buf;
		size_t n;

		vcase();
		layer = strtok_r(line, " \n", &save);
		if (!layer)
			continue;
		cfgs = strtok_r(NULL, " \n", &save);
		hex = strtok_r(NULL, " \n", &save);
		kinds = strtok_r(NULL, " \n", &save);
		secs = strtok_r(NULL, " \n", &save);
		sws = strtok_r(NULL, " \n", &save);
		while ((tok = strtok_r(NULL, " \n", &save)) && nst < 16)
			starts[nst++] = tok;
		nsec = 0;
		for (tok = strtok_r(secs, ";", &s2); tok && nsec < 256;
		     tok = strtok_r(NULL, ";", &s2)) {
			struct sec *s = &sec[nsec++];
			char *f[5];

			for (i = 0; i < 5; ++i) {
				f[i] = tok;
				tok = strchr(tok, ',');
				if (tok)
					*tok++ = 0;
				else
					break;
			}
			s->img = (unsigned) atoi(f[0]);
			s->cr3 = num(f[1]);
			s->vmcs = num(f[2]);
			s->vaddr = num(f[3]);
			s->b = unhex(f[4], &s->n);
		}
		nswaps = 0;
		if (*sws != '-')
			for (tok = strtok_r(sws, ",", &s2); tok && nswaps < 64;
			     tok = strtok_r(NULL, ",", &s2)) {
				swaps[nswaps].n = strtoull(tok, &p, 10);
				swaps[nswaps++].img = (unsigned) atoi(p + 1);
			}
		J("{\"cfg\":{");
		vconfig(&cfg, cfgs, *layer);
		J("},\"r\":[[\"start\"]");
		buf = vbuffer(hex, 0, &n, &base);
		cfg.begin = buf;
		cfg.end = buf + n;
		image(kinds);
		timed = !!strchr(kinds, 't');
		p = strchr(kinds, 'w');
		if (p)
			warm = (unsigned) atoi(p + 1);
		for (k = 0; k <= warm; ++k) {
			rec = k == warm;
			id = NULL;
			bd = NULL;
			if (*layer == 'i') {
				id = pt_insn_alloc_decoder(&cfg);
				pt_insn_set_image(id, img[0]);
			} else {
				struct pt_config c = cfg;

				/* Caches are shared by decoders that differ in
				 * their configuration. */
				if (!rec && strchr(kinds, 'v'))
					c.flags.variant.block.end_on_call =
						c.flags.variant.block
							.end_on_jump = k % 2;
				bd = pt_blk_alloc_decoder(&c);
				pt_blk_set_image(bd, img[0]);
			}
			if (!id && !bd)
				abort();
			for (i = 0; i < nst; ++i)
				run(starts[i], n);
			pt_insn_free_decoder(id);
			pt_blk_free_decoder(bd);
		}
		J(",[\"end\"]]}\n");
		for (i = 0; i < nimg; ++i)
			pt_image_free(img[i]);
		pt_iscache_free(isc);
		for (i = 0; i < nsec; ++i)
			free(sec[i].b);
		free(base);
	}
	fflush(vout);
	unlink(file);
	free(line);
	return 0;
}
