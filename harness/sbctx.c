/* Process contexts of sideband sessions (C26).
 * Runs in the directory given as argument.
 *
 * stdin, one case per line: <iscache 0|1> <op> ...; c: contexts in the order
 * in which they were created, from 1; 0 for the kernel.
 *   g<pid hex>[,k]  pt_sb_get_context_by_pid(), the k-th allocation fails
 *   f<pid hex>      pt_sb_find_context_by_pid()
 *   r<c>  +<c>,<n>  -<c>,<n>     remove, get and put references
 *   m<c>,<file>,<off>,<n>,<slot>  map n units; file 0 does not exist
 *   n<kind>  pt_sb_notify_switch(): 0 none, 1 succeeds, 2 fails
 *   s<c>     pt_sb_ctx_switch_to()
 *   x        pt_sb_free()
 * Operations on contexts that may not be used are skipped.
 *
 * Output: one JSON line per case for SbCtxTrace.tla.
 */
#include "vj.h"
#include "libipt-sb.h"
#include "pt_image.h"
#include "pt_asid.h"

#define UNIT 16
#define UNITS 6
#define SLOTS 10
#define BASE 0x7ffff0001000ull

static int in_op, first;
static long fail_at = -1;
static int oom;
static long n_mem, n_im;
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
char *__real_strdup(const char *);
static int fails(void)
{
	if (!in_op || fail_at < 0 || fail_at-- != 0)
		return 0;
	oom = 1;
	return 1;
}
static void *got(void *p)
{
	n_mem += !!p;
	return p;
}
void *__wrap_malloc(size_t n) { return fails() ? NULL : got(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m)
{
	return fails() ? NULL : got(__real_calloc(n, m));
}
void *__wrap_realloc(void *p, size_t n)
{
	return fails() ? NULL : p ? __real_realloc(p, n) :
		got(__real_realloc(p, n));
}
char *__wrap_strdup(const char *s)
{
	return fails() ? NULL : got(__real_strdup(s));
}
void __wrap_free(void *p)
{
	n_mem -= !!p;
	__real_free(p);
}
/* Memory images in existence. */
struct pt_image *__real_pt_image_alloc(const char *);
void __real_pt_image_free(struct pt_image *);
struct pt_image *__wrap_pt_image_alloc(const char *n)
{
	struct pt_image *im = __real_pt_image_alloc(n);

	n_im += !!im;
	return im;
}
void __wrap_pt_image_free(struct pt_image *im)
{
	n_im -= !!im;
	__real_pt_image_free(im);
}

static struct {
	struct pt_sb_context *c;
	long own;
	int listed;
	struct pt_image *im;
} h[64];
static int nh;
static struct pt_sb_session *ses;
static struct pt_image_section_cache *isc;
static const struct pt_sb_context *told;
static int tag[2];

static int ok(const struct pt_sb_context *c, void *priv)
{
	told = priv == &tag[0] ? c : NULL;
	return 0;
}
static int err(const struct pt_sb_context *c, void *priv)
{
	told = priv == &tag[1] ? c : NULL;
	return -pte_bad_context;
}
static int live(int x) { return h[x].own > 0 || h[x].listed; }
static int which(const struct pt_sb_context *c)
{
	int x;

	if (!c)
		return 0;
	for (x = nh; x > 0; --x)
		if (h[x].c == c && live(x))
			return x;
	return -1;
}
static void mem(struct pt_image *im)
{
	int s;

	J("[");
	for (s = 0; s < SLOTS; ++s) {
		struct pt_asid a;
		uint8_t b = 0;
		int n, isid;

		pt_asid_init(&a);
		n = pt_image_read(im, &isid, &b, 1, &a,
				  BASE + UNIT * s + s % UNIT);
		J(s ? ",%d" : "%d", n == 1 ? b : 0);
	}
	J("]");
}
static void state(void)
{
	int x;

	J(",\"ims\":%ld,\"ic\":%d,\"kern\":", n_im,
	  !ses || pt_sb_iscache(ses) == isc);
	if (ses)
		mem(pt_sb_kernel_image(ses));
	else
		J("[]");
	J(",\"mem\":[");
	for (x = 1; x <= nh; ++x) {
		J(x > 1 ? "," : "");
		if (live(x))
			mem(pt_sb_ctx_image(h[x].c));
		else
			J("[]");
	}
	J("]}");
}
#define S(...) (J(first ? "{" : ",{"), first = 0, J(__VA_ARGS__), state())

static const char *kind(pt_sb_ctx_switch_notifier_t *f)
{
	return !f ? "none" : f == ok ? "ok" : f == err ? "err" : "?";
}

static void one(char *line)
{
	char *tok, *save = NULL, *p;
	int e, x;

	tok = strtok_r(line, " \n", &save);
	if (!tok)
		return;
	first = 1;
	nh = 0;
	isc = *tok == '1' ? pt_iscache_alloc(NULL) : NULL;
	ses = pt_sb_alloc(isc);
	J("{\"steps\":[");
	while ((tok = strtok_r(NULL, " \n", &save))) {
		struct pt_sb_context *c = NULL;
		long v[5] = { 0 };
		uint32_t pid = 0;
		int n = 0;

		p = tok + 1;
		if (*tok == 'g' || *tok == 'f') {
			pid = (uint32_t) strtoul(p, &p, 16);
			v[0] = *p == ',' ? strtol(p + 1, &p, 10) : -1;
		} else
			for (; *p && n < 5; p += *p == ',')
				v[n++] = strtol(p, &p, 10);
		x = (int) v[0];
		if (!strchr("gfnx", *tok) &&
		    (x > nh || (x && !live(x)) || (!x && *tok != 'm')))
			continue;
		if (!ses && !strchr("+-", *tok))
			continue;
		switch (*tok) {
		case 'f':
			e = pt_sb_find_context_by_pid(&c, ses, pid);
			S("\"k\":\"find\",\"p\":\"%x\",\"e\":\"%s\",\"c\":%d",
			  pid, ename(e), e < 0 ? 0 : which(c));
			break;
		case 'g':
			fail_at = v[0];
			oom = 0;
			in_op = 1;
			e = pt_sb_get_context_by_pid(&c, ses, pid);
			in_op = 0;
			fail_at = -1;
			x = e < 0 ? 0 : which(c);
			if (x < 0) {
				x = ++nh;
				h[x].c = c;
				h[x].own = 0;
				h[x].listed = 1;
			}
			S("\"k\":\"get\",\"p\":\"%x\",\"oom\":%d,\"e\":\"%s\","
			  "\"c\":%d", pid, oom, ename(e), x);
			break;
		case 'r':
			e = pt_sb_remove_context(ses, h[x].c);
			if (e >= 0)
				h[x].listed = 0;
			S("\"k\":\"rm\",\"h\":%d,\"e\":\"%s\"", x, ename(e));
			break;
		case '+':
			for (e = 0, n = 0; n < v[1]; ++n) {
				e = pt_sb_ctx_get(h[x].c);
				if (e < 0)
					break;
			}
			h[x].own += n;
			S("\"k\":\"ref\",\"h\":%d,\"n\":%ld,\"e\":\"%s\","
			  "\"done\":%d", x, v[1], ename(e), n);
			break;
		case '-':
			if (v[1] > h[x].own)
				v[1] = h[x].own;
			for (e = 0, n = 0; n < v[1] && e >= 0; ++n)
				e = pt_sb_ctx_put(h[x].c);
			h[x].own -= n;
			S("\"k\":\"put\",\"h\":%d,\"n\":%ld,\"e\":\"%s\"", x,
			  v[1], ename(e));
			break;
		case 'm': {
			char name[16];

			snprintf(name, sizeof(name), "f%ld", v[1]);
			if (x)
				e = pt_sb_ctx_mmap(ses, h[x].c, name,
						   (uint64_t) v[2] * UNIT,
						   (uint64_t) v[3] * UNIT,
						   BASE + UNIT * v[4]);
			else
				e = pt_image_add_file(pt_sb_kernel_image(ses),
						      name,
						      (uint64_t) v[2] * UNIT,
						      (uint64_t) v[3] * UNIT,
						      NULL,
						      BASE + UNIT * v[4]);
			S("\"k\":\"mmap\",\"h\":%d,\"f\":%ld,\"o\":%ld,"
			  "\"n\":%ld,\"s\":%ld,\"e\":\"%s\"", x, v[1], v[2],
			  v[3], v[4], ename(e));
			break;
		}
		case 'n': {
			pt_sb_ctx_switch_notifier_t *f, *old;

			f = x == 1 ? ok : x == 2 ? err : NULL;
			old = pt_sb_notify_switch(ses, f, x ? &tag[x - 1] :
						  NULL);
			S("\"k\":\"note\",\"to\":\"%s\",\"old\":\"%s\"",
			  kind(f), kind(old));
			break;
		}
		case 's': {
			struct pt_image *none = __real_pt_image_alloc(NULL);
			struct pt_image *im;

			told = NULL;
			im = none;
			e = pt_sb_ctx_switch_to(&im, ses, h[x].c);
			for (n = nh; n > 0; --n)
				if (live(n) && pt_sb_ctx_image(h[n].c) == im)
					break;
			S("\"k\":\"switch\",\"h\":%d,\"e\":\"%s\",\"was\":0,"
			  "\"im\":%d,\"told\":%d", x, ename(e),
			  im == none ? 0 : n ? n : -1, which(told));
			__real_pt_image_free(none);
			break;
		}
		case 'x':
			pt_sb_free(ses);
			ses = NULL;
			for (n = 1; n <= nh; ++n)
				h[n].listed = 0;
			S("\"k\":\"free\"");
			break;
		}
	}
	if (ses)
		pt_sb_free(ses);
	for (x = 1; x <= nh; ++x)
		for (; h[x].own > 0; h[x].own -= 1)
			pt_sb_ctx_put(h[x].c);
	pt_iscache_free(isc);
	J("],\"left\":%ld}\n", n_mem);
	n_mem = 0;
	n_im = 0;
}

int main(int argc, char **argv)
{
	char *line = NULL;
	size_t cap = 0;
	int f, u;

	if (argc < 2 || chdir(argv[1]))
		return 3;
	vout = stdout;
	for (f = 1; f <= 3; ++f) {
		char name[16];
		FILE *o;

		snprintf(name, sizeof(name), "f%d", f);
		o = fopen(name, "wb");
		for (u = 0; u < UNIT * UNITS; ++u)
			fputc(16 * f + u / UNIT + 1, o);
		fclose(o);
	}
	while (getline(&line, &cap, stdin) > 0) {
		vcase();
		one(line);
	}
	free(line);
	fflush(vout);
	return 0;
}
