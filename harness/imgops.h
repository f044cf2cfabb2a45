/* Operations on images and section caches, used by image.c and sched.c. */
#ifndef IMGOPS_H
#define IMGOPS_H
#define VJ_TLS __thread
#include "vj.h"
#include <malloc.h>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <threads.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "pt_image.h"
#include "pt_image_section_cache.h"
#include "pt_section.h"
#include "pt_mapped_section.h"
#include "pt_msec_cache.h"
#include "pt_block_cache.h"
#include "pt_asid.h"

/* ---- what the library allocates ---------------------------------------- */
static __thread int in_op;		/* the library is running */
static long n_mem, n_lock;
static long n_map, n_bc;	/* bytes */
static __thread long fail_at = -1;	/* which allocation fails, from 0 */
static __thread int fail_map, failed;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
char *__real_strdup(const char *);
void __real_free(void *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__real_mmap64(void *, size_t, int, int, int, off64_t);
int __real_munmap(void *, size_t);
int __real_mtx_init(mtx_t *, int);
void __real_mtx_destroy(mtx_t *);
struct pt_block_cache *__real_pt_bcache_alloc(uint64_t);
void __real_pt_bcache_free(struct pt_block_cache *);

static int fails(void)
{
	if (!in_op || fail_at < 0)
		return 0;
	if (fail_at-- == 0) {
		failed = 1;
		return 1;
	}
	return 0;
}
static void *got(void *p)
{
	if (p && in_op)
		n_mem += 1;
	return p;
}
void *__wrap_malloc(size_t n)
{
	return fails() ? NULL : got(__real_malloc(n));
}
void *__wrap_calloc(size_t n, size_t m)
{
	return fails() ? NULL : got(__real_calloc(n, m));
}
void *__wrap_realloc(void *p, size_t n)
{
	if (fails())
		return NULL;
	return p ? __real_realloc(p, n) : got(__real_realloc(p, n));
}
char *__wrap_strdup(const char *s)
{
	return fails() ? NULL : got(__real_strdup(s));
}
void __wrap_free(void *p)
{
	if (p && in_op)
		n_mem -= 1;
	__real_free(p);
}
static int unmapped(void *a, size_t n);

static int nomap(void)
{
	if (!in_op || !fail_map)
		return 0;
	failed = 1;
	return 1;
}
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
	void *m = nomap() ? MAP_FAILED : __real_mmap(a, n, p, f, fd, o);

	if (m != MAP_FAILED && in_op)
		n_map += (long) n;
	return m;
}
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off64_t o)
{
	void *m = nomap() ? MAP_FAILED : __real_mmap64(a, n, p, f, fd, o);

	if (m != MAP_FAILED && in_op)
		n_map += (long) n;
	return m;
}
int __wrap_munmap(void *a, size_t n)
{
	if (in_op)
		n_map -= (long) n;
	return unmapped(a, n);
}
static long bsize(const struct pt_block_cache *b)
{
	return b ? (long) (sizeof(*b) + b->nentries *
			   sizeof(struct pt_bcache_entry)) : 0;
}
struct pt_block_cache *__wrap_pt_bcache_alloc(uint64_t n)
{
	struct pt_block_cache *b = __real_pt_bcache_alloc(n);

	n_bc += bsize(b);
	return b;
}
void __wrap_pt_bcache_free(struct pt_block_cache *b)
{
	n_bc -= bsize(b);
	__real_pt_bcache_free(b);
}
static long nfds(void)
{
	DIR *d = opendir("/proc/self/fd");
	long n = 0;

	while (readdir(d))
		n += 1;
	closedir(d);
	return n;
}

/* ---- the case ---------------------------------------------------------- */
static char dir[128];
static uint64_t base;
static int nfile;
static long fsize_[8];
static struct pt_image *img[4];
static struct pt_image_section_cache *isc[3];
static struct pt_msec_cache hold[4];
static int held[4];
static __thread int cblog;
static __thread long cbv[8][4];
static __thread uint8_t *buf;

static const char *fname(int f)
{
	static __thread char b[4][200];
	static __thread int k;

	k = (k + 1) & 3;
	snprintf(b[k], sizeof(b[k]), "%s/f%d", dir, f);
	return b[k];
}
static uint8_t fbyte(int f, long o)
{
	return (uint8_t) (f * 101 + o * 7 + (o / 256) * 13 + (o / 4096) * 29);
}
static void fill(int f, long size)
{
	long o;
	FILE *out = fopen(fname(f), fsize_[f] ? "ab" : "wb");

	for (o = fsize_[f]; o < size; ++o)
		fputc(fbyte(f, o), out);
	fclose(out);
	fsize_[f] = size;
}

static uint64_t crv(long v) { return v < 0 ? ~0ull : (uint64_t) v << 12; }
static long rcr(uint64_t v)
{
	return v == ~0ull ? -1 : (v & 0xfff) ? -2 : (long) (v >> 12);
}

static int readmem(uint8_t *b, size_t n, const struct pt_asid *asid,
		   uint64_t ip, void *ctx)
{
	int kind = (int) (intptr_t) ctx;
	size_t i, k = n;
	long cr = rcr(asid->cr3), vm = rcr(asid->vmcs), a = (long) (ip - base);

	if (cblog < 8) {
		cbv[cblog][0] = cr;
		cbv[cblog][1] = vm;
		cbv[cblog][2] = a;
		cbv[cblog][3] = (long) n;
	}
	cblog += 1;
	if (kind == 3)
		return -pte_nomap;
	if (kind == 4)
		return -pte_bad_context;
	if (kind == 2)
		k = (n + 1) / 2;
	for (i = 0; i < k; ++i)
		b[i] = (uint8_t) ((a + (long) i) * 5 + (cr + 1) * 3 +
				  (vm + 1) * 17 + 11);
	return (int) k;
}

static struct pt_asid *asid_of(long cr, long vm, long mode)
{
	uint8_t big[64];
	static __thread struct pt_asid *a;
	struct pt_asid s;

	pt_asid_init(&s);
	s.cr3 = crv(cr);
	s.vmcs = crv(vm);
	__real_free(a);
	switch (mode) {
	case 1:
		a = NULL;
		return NULL;
	case 2:
		s.size = offsetof(struct pt_asid, vmcs);
		break;
	case 3:
		memset(big, 0xa5, sizeof(big));
		s.size = sizeof(big);
		memcpy(big, &s, sizeof(s));
		a = __real_malloc(sizeof(big));
		memcpy(a, big, sizeof(big));
		return a;
	case 4:
		s.size = sizeof(s.size);
		break;
	}
	/* exactly as many bytes as the user's structure has */
	a = __real_malloc(s.size);
	memcpy(a, &s, s.size);
	return a;
}

static void out_bytes(int e, long n)
{
	long i, k;

	if (e < 0) {
		J(",\"got\":0,\"len\":0,\"by\":[]");
		return;
	}
	k = e <= 64 ? e : 24;
	J(",\"got\":%d,\"len\":%ld,\"by\":[", e, k);
	for (i = 0; i < k; ++i)
		J(i ? ",%u" : "%u", buf[e <= 64 || i < 12 ? i : e - 24 + i]);
	J("]");
	if (e > n)
		J(",\"toomuch\":1");
}
static void out_cbs(void)
{
	int i;

	J(",\"cbs\":[");
	for (i = 0; i < cblog && i < 8; ++i)
		J("%s{\"cr\":%ld,\"vm\":%ld,\"a\":%ld,\"n\":%ld}",
		  i ? "," : "", cbv[i][0], cbv[i][1], cbv[i][2], cbv[i][3]);
	J("]");
}

#define LIB(x) (in_op = 1, (x), in_op = 0)

static void dropit(int h)
{
	if (held[h])
		pt_msec_cache_fini(&hold[h]);
	held[h] = 0;
	pt_msec_cache_init(&hold[h]);
}

static void op_end(void);

static int op(char *s, int first)
{
	long v[10] = { 0 };
	char *name = s, *p = strchr(s, ',');
	int i, n = 0, e = 0;
	const struct pt_mapped_section *ms = NULL;

	if (p)
		*p++ = 0;
	while (p && n < 10) {
		v[n++] = strtol(p, &p, 10);
		if (*p == ',')
			++p;
	}
#define IS(x) (!strcmp(name, x))
	if (IS("fail")) {
		fail_at = v[0];
		return 0;
	}
	if (IS("nomap")) {
		fail_map = 1;
		return 0;
	}
	failed = 0;
	cblog = 0;
	J("%s{\"op\":\"%s\"", first ? "" : ",", name);
#define F(x, i) J(",\"" x "\":%ld", v[i])
	if (IS("add")) {
		F("im", 0), F("f", 1), F("o", 2), F("size", 3), F("cr", 4);
		F("vm", 5), F("a", 6);
		LIB(e = pt_image_add_file(img[v[0]], fname((int) v[1]),
					  (uint64_t) v[2], (uint64_t) v[3],
					  asid_of(v[4], v[5], v[7]),
					  base + (uint64_t) v[6]));
	} else if (IS("addc")) {
		F("im", 0), F("c", 1), F("id", 2), F("cr", 3), F("vm", 4);
		LIB(e = pt_image_add_cached(img[v[0]], isc[v[1]], (int) v[2],
					    asid_of(v[3], v[4], v[5])));
	} else if (IS("copy")) {
		F("im", 0), F("src", 1);
		LIB(e = pt_image_copy(img[v[0]], img[v[1]]));
		J(",\"cnt\":%d", e);
	} else if (IS("rmf")) {
		F("im", 0), F("f", 1), F("cr", 2), F("vm", 3);
		LIB(e = pt_image_remove_by_filename(
			img[v[0]], fname((int) v[1]),
			asid_of(v[2], v[3], v[4])));
		J(",\"cnt\":%d", e);
	} else if (IS("rma")) {
		F("im", 0), F("cr", 1), F("vm", 2);
		LIB(e = pt_image_remove_by_asid(img[v[0]],
						asid_of(v[1], v[2], v[3])));
		J(",\"cnt\":%d", e);
	} else if (IS("cb")) {
		F("im", 0), F("cnt", 1);
		LIB(e = pt_image_set_callback(img[v[0]],
					      v[1] ? readmem : NULL,
					      (void *) (intptr_t) v[1]));
	} else if (IS("read")) {
		struct pt_asid asid;
		int id = -77;

		F("im", 0), F("n", 1), F("cr", 2), F("vm", 3), F("a", 4);
		pt_asid_init(&asid);
		asid.cr3 = crv(v[2]);
		asid.vmcs = crv(v[3]);
		buf = __real_malloc((size_t) v[1]);
		LIB(e = pt_image_read(img[v[0]], &id, buf, (uint16_t) v[1],
				      &asid, base + (uint64_t) v[4]));
		J(",\"id\":%d", id);
		out_bytes(e, v[1]);
		out_cbs();
		__real_free(buf);
	} else if (IS("cadd")) {
		F("c", 0), F("f", 1), F("o", 2), F("size", 3), F("a", 4);
		LIB(e = pt_iscache_add_file(isc[v[0]], fname((int) v[1]),
					    (uint64_t) v[2], (uint64_t) v[3],
					    base + (uint64_t) v[4]));
		J(",\"id\":%d", e);
	} else if (IS("cread")) {
		F("c", 0), F("id", 1), F("n", 2), F("a", 3);
		buf = __real_malloc((size_t) v[2] + 1);
		LIB(e = pt_iscache_read(isc[v[0]], buf, (uint64_t) v[2],
					(int) v[1], base + (uint64_t) v[3]));
		out_bytes(e, v[2]);
		__real_free(buf);
	} else if (IS("limit")) {
		F("c", 0), F("size", 1);
		LIB(e = pt_iscache_set_limit(isc[v[0]], (uint64_t) v[1]));
	} else if (IS("hold")) {
		struct pt_asid asid;
		int id;

		F("h", 0), F("im", 1), F("n", 2), F("cr", 3), F("vm", 4);
		F("a", 5);
		pt_asid_init(&asid);
		asid.cr3 = crv(v[3]);
		asid.vmcs = crv(v[4]);
		LIB(id = pt_msec_cache_fill(&hold[v[0]], &ms, img[v[1]], &asid,
					    base + (uint64_t) v[5]));
		e = id;
		held[v[0]] = 1;
		J(",\"id\":%d", id);
		buf = __real_malloc((size_t) v[2]);
		if (e >= 0)
			LIB(e = pt_msec_read(ms, buf, (uint16_t) v[2],
					     base + (uint64_t) v[5]));
		out_bytes(e, v[2]);
		__real_free(buf);
	} else if (IS("hread")) {
		const struct pt_mapped_section *m = &hold[v[0]].msec;

		F("h", 0), F("n", 1), F("a", 2);
		buf = __real_malloc((size_t) v[1]);
		e = -pte_nomap;
		if (held[v[0]] && pt_msec_section(m))
			LIB(e = pt_msec_read(m, buf, (uint16_t) v[1],
					     base + (uint64_t) v[2]));
		out_bytes(e, v[1]);
		__real_free(buf);
	} else if (IS("hval")) {
		F("h", 0), F("im", 1), F("a", 2);
		e = -pte_nomap;
		if (held[v[0]] && pt_msec_section(&hold[v[0]].msec))
			LIB(e = pt_msec_cache_read(&hold[v[0]], &ms,
						   img[v[1]],
						   base + (uint64_t) v[2]));
		J(",\"id\":%d", e);
	} else if (IS("bc")) {
		struct pt_section *sec = pt_msec_section(&hold[v[0]].msec);

		F("h", 0);
		if (held[v[0]] && sec) {
			LIB(e = pt_section_request_bcache(sec));
			if (e >= 0 && !pt_section_bcache(sec))
				e = -pte_internal;
		}
	} else if (IS("drop")) {
		F("h", 0);
		LIB(dropit((int) v[0]));
	} else if (IS("ifree")) {
		F("im", 0);
		LIB(pt_image_free(img[v[0]]));
		LIB(img[v[0]] = pt_image_alloc("again"));
		e = img[v[0]] ? 0 : -pte_nomem;
		while (!img[v[0]])
			LIB(img[v[0]] = pt_image_alloc(NULL));
	} else if (IS("cfree")) {
		F("c", 0);
		LIB(pt_iscache_free(isc[v[0]]));
		LIB(isc[v[0]] = pt_iscache_alloc(NULL));
	} else if (IS("grow")) {
		F("f", 0), F("size", 1);
		fill((int) v[0], v[1]);
	} else if (IS("unlink")) {
		F("f", 0);
		unlink(fname((int) v[0]));
	} else {
		fprintf(stderr, "unknown op %s\n", name);
		exit(3);
	}
	(void) i;
	fail_at = -1;
	fail_map = 0;
	J(",\"e\":\"%s\",\"fail\":%s,\"m\":%ld", ename(e),
	  failed ? "true" : "false", n_map + n_bc);
	op_end();
	J("}");
	return 1;
}

#endif
