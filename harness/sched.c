/* Section caches and images used by several threads (C14).
 *
 * stdin, one case per line:
 *   <explore> <base> <size>[,<size>...] <op> ... | <op> ... | ... | <op> ...
 * The first group of operations is done before the threads start, the last
 * one after they are done; each of the others is one thread.  The operations
 * are those of image.c.  How to explore the schedules:
 *   L<n>:<max>   all with at most n preemptions, at lock operations
 *   A<n>:<max>   the same, at all accesses to memory that threads share
 *   R<seed>:<n>  n random ones, at any memory access
 *   S<step>-<thread>[,...]  this one
 * Only one thread runs at a time.  Locks are replaced; memory that has been
 * unmapped is made inaccessible.
 *
 * Output: for each case the different histories, one JSON line each for
 * LinTrace.tla, and a line with the number of runs.
 */
#include "imgops.h"
#include <pthread.h>
#include <semaphore.h>
#include <sanitizer/common_interface_defs.h>

enum { NT = 3, READY = 0, BLOCKED, DONE };
struct thr {
	pthread_t id;
	sem_t go;
	int state;
	mtx_t *wants;
	char *ops, *out;
	size_t nout;
	FILE *f;
};
static struct thr thr[NT + 1];
static int nthr;
static sem_t done;
static __thread int self;	/* 0 when not a thread of the case */
static __thread long inv;
static __thread char *stk_lo, *stk_hi;
static long now;		/* calls and returns */

/* ---- dying ------------------------------------------------------------- */
static char *case_line;
struct pre { long step; int t; };
static struct pre taken[4096];
static int ntaken;
static long step;

static void print_schedule(FILE *out)
{
	int i;

	for (i = 0; i < ntaken; ++i)
		fprintf(out, "%s%ld-%d", i ? "," : "", taken[i].step,
			taken[i].t);
}
static void on_death(void)
{
	fprintf(stderr, "\nSCHEDULE S");
	print_schedule(stderr);
	fprintf(stderr, "\n");
	fflush(stderr);
}
static void die(const char *what)
{
	fprintf(stderr, "ERROR: %s\n", what);
	on_death();
	_exit(97);
}

/* ---- choosing who runs ------------------------------------------------- */
static int mode;		/* L, A, R, S; 0: just one after the other */
static int bound, used;
struct choice { int n, cur, opt[NT]; };
static struct choice ch[200000];
static int nch, pos;
static struct pre plan[64];
static int nplan;
static uint64_t rnd;
static int order[NT + 1];	/* who goes first when there is a choice */

static uint64_t rand64(void)
{
	rnd ^= rnd << 13;
	rnd ^= rnd >> 7;
	rnd ^= rnd << 17;
	return rnd;
}

/* The next to run; cur is 0 if it cannot go on. */
static int choose(int cur)
{
	int opt[NT], n = 0, i, t;

	if (cur)
		opt[n++] = cur;
	for (i = 1; i <= nthr; ++i)
		if (order[i] != cur && thr[order[i]].state == READY)
			opt[n++] = order[i];
	if (!n)
		return 0;
	t = opt[0];
	if (mode == 'S' || mode == 'R') {
		for (i = 0; i < nplan; ++i)
			if (plan[i].step == step) {
				int j;

				if (mode == 'R')
					t = opt[(unsigned) plan[i].t % n];
				else
					for (j = 0; j < n; ++j)
						if (opt[j] == plan[i].t)
							t = opt[j];
			}
	} else if (mode == 'L' || mode == 'A') {
		if (cur && used >= bound)
			n = 1;
		if (n > 1) {
			if (pos == nch) {
				if (nch == 200000)
					return t;
				ch[nch].n = n;
				ch[nch].cur = 0;
				memcpy(ch[nch].opt, opt, sizeof(opt));
				nch += 1;
			}
			if (ch[pos].n != n)
				die("schedule not reproducible");
			t = ch[pos].opt[ch[pos].cur];
			pos += 1;
			if (cur && t != cur)
				used += 1;
		}
	}
	if (t != opt[0] && ntaken < 4096) {
		taken[ntaken].step = step;
		taken[ntaken].t = t;
		ntaken += 1;
	}
	return t;
}

static void stuck(void);

static void hand_over(int t)
{
	if (t == self)
		return;
	sem_post(&thr[t].go);
	while (sem_wait(&thr[self].go))
		;
}
static void yield_(void)
{
	int op = in_op;

	in_op = 0;
	hand_over(choose(self));
	in_op = op;
}
static void block(void)
{
	int t, op = in_op;

	in_op = 0;
	t = choose(0);
	if (!t)
		stuck();
	hand_over(t);
	in_op = op;
}

/* ---- locks ------------------------------------------------------------- */
struct emu { uint32_t magic; int owner; };
#define MAGIC 0x10cc10cc
#define ME (self ? self : 100)

static struct emu *emu(mtx_t *m)
{
	struct emu *e = (struct emu *) m;

	if (e->magic != MAGIC)
		die("use of a lock that does not exist");
	return e;
}
int __wrap_mtx_init(mtx_t *m, int t)
{
	struct emu *e = (struct emu *) m;

	(void) t;
	n_lock += 1;
	e->magic = MAGIC;
	e->owner = 0;
	return thrd_success;
}
void __wrap_mtx_destroy(mtx_t *m)
{
	struct emu *e = emu(m);

	if (e->owner)
		die("a lock is destroyed while it is held");
	n_lock -= 1;
	e->magic = 0;
}
int __wrap_mtx_trylock(mtx_t *m)
{
	if (self && in_op) {
		step += 1;
		yield_();
	}
	if (emu(m)->owner)
		return thrd_busy;
	emu(m)->owner = ME;
	return thrd_success;
}
int __wrap_mtx_lock(mtx_t *m)
{
	if (self && in_op) {
		step += 1;
		yield_();
	}
	while (emu(m)->owner) {
		if (!self)
			die("deadlock");
		thr[self].state = BLOCKED;
		thr[self].wants = m;
		block();
	}
	emu(m)->owner = ME;
	return thrd_success;
}
int __wrap_mtx_unlock(mtx_t *m)
{
	int i;

	if (emu(m)->owner != ME)
		die("a lock is released by a thread that does not hold it");
	emu(m)->owner = 0;
	for (i = 1; i <= nthr; ++i)
		if (thr[i].state == BLOCKED && thr[i].wants == m)
			thr[i].state = READY;
	if (self && in_op) {
		step += 1;
		yield_();
	}
	return thrd_success;
}

/* ---- memory accesses --------------------------------------------------- */
struct acc { uintptr_t a, pc; int t, w; };
#define NACC 400000
static struct acc acc[NACC];
static int nacc, learning;
#define NSITE 65536
static uintptr_t site[NSITE];
static int nsites;

static int is_site(uintptr_t pc)
{
	unsigned h = (unsigned) (pc * 0x9e3779b1u) % NSITE;

	while (site[h]) {
		if (site[h] == pc)
			return 1;
		h = (h + 1) % NSITE;
	}
	return 0;
}
static void add_site(uintptr_t pc)
{
	unsigned h = (unsigned) (pc * 0x9e3779b1u) % NSITE;

	while (site[h]) {
		if (site[h] == pc)
			return;
		h = (h + 1) % NSITE;
	}
	site[h] = pc;
	nsites += 1;
}
static int by_addr(const void *a, const void *b)
{
	const struct acc *x = a, *y = b;

	return x->a < y->a ? -1 : x->a > y->a;
}
static void learn(void)
{
	int i, j, k;

	qsort(acc, nacc, sizeof(acc[0]), by_addr);
	for (i = 0; i < nacc; i = j) {
		int ts = 0, w = 0;

		for (j = i; j < nacc && acc[j].a == acc[i].a; ++j) {
			ts |= 1 << acc[j].t;
			w |= acc[j].w;
		}
		if (w && (ts & (ts - 1)))
			for (k = i; k < j; ++k)
				add_site(acc[k].pc);
	}
	nacc = 0;
}
static void access_(void *addr, int w, uintptr_t pc)
{
	char *a = addr;

	if (!self || !in_op || (stk_lo <= a && a < stk_hi))
		return;
	step += 1;
	if (learning && nacc < NACC) {
		acc[nacc].a = (uintptr_t) a & ~7ul;
		acc[nacc].pc = pc;
		acc[nacc].t = self;
		acc[nacc].w = w;
		nacc += 1;
	}
	if (mode == 'R' || mode == 'S' || (mode == 'A' && is_site(pc)))
		yield_();
}
#define PC (uintptr_t) __builtin_return_address(0)
void __sanitizer_cov_load1(void *a) { access_(a, 0, PC); }
void __sanitizer_cov_load2(void *a) { access_(a, 0, PC); }
void __sanitizer_cov_load4(void *a) { access_(a, 0, PC); }
void __sanitizer_cov_load8(void *a) { access_(a, 0, PC); }
void __sanitizer_cov_load16(void *a) { access_(a, 0, PC); }
void __sanitizer_cov_store1(void *a) { access_(a, 1, PC); }
void __sanitizer_cov_store2(void *a) { access_(a, 1, PC); }
void __sanitizer_cov_store4(void *a) { access_(a, 1, PC); }
void __sanitizer_cov_store8(void *a) { access_(a, 1, PC); }
void __sanitizer_cov_store16(void *a) { access_(a, 1, PC); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void) g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
	(void) a, (void) b;
}

/* Files and memory are shared, too. */
static void outside(void)
{
	if (!self || !in_op)
		return;
	step += 1;
	if (mode == 'R' || mode == 'S' || mode == 'A')
		yield_();
}
int __real_fseek(FILE *, long, int);
int __wrap_fseek(FILE *f, long o, int w)
{
	int r = __real_fseek(f, o, w);

	outside();
	return r;
}
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *b, size_t n, size_t m, FILE *f)
{
	outside();
	return __real_fread(b, n, m, f);
}
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f)
{
	outside();
	return __real_fclose(f);
}

/* Nothing is mapped where something has been unmapped, for a while. */
static struct { void *a; size_t n; } gone[4096];
static int ngone;

static int unmapped(void *a, size_t n)
{
	outside();
	if (ngone == 4096)
		return __real_munmap(a, n);
	gone[ngone].a = a;
	gone[ngone].n = n;
	ngone += 1;
	if (mprotect(a, n, PROT_NONE))
		die("munmap of memory that is not mapped");
	return 0;
}

/* ---- one run ----------------------------------------------------------- */
static void op_end(void)
{
	now += 1;
	J(",\"q\":%s,\"inv\":%ld,\"ret\":%ld", self ? "false" : "true", inv,
	  now);
}
static void group(char *ops)
{
	char *save = NULL, *tok, *s = strdup(ops);
	int first = 1;

	for (tok = strtok_r(s, " \n", &save); tok;
	     tok = strtok_r(NULL, " \n", &save)) {
		if (self) {
			step += 1;
			yield_();
		}
		now += 1;
		inv = now;
		if (op(tok, first))
			first = 0;
		if (self) {
			step += 1;
			yield_();
		}
	}
	free(s);
}
static void *worker(void *arg)
{
	pthread_attr_t attr;
	void *lo;
	size_t n;
	int t;

	self = (int) (intptr_t) arg;
	pthread_getattr_np(pthread_self(), &attr);
	pthread_attr_getstack(&attr, &lo, &n);
	stk_lo = lo;
	stk_hi = stk_lo + n;
	for (;;) {
		while (sem_wait(&thr[self].go))
			;
		thr[self].out = NULL;
		vout = open_memstream(&thr[self].out, &thr[self].nout);
		group(thr[self].ops);
		fclose(vout);
		thr[self].state = DONE;
		t = choose(0);
		if (t) {
			sem_post(&thr[t].go);
			continue;
		}
		for (t = 1; t <= nthr; ++t)
			if (thr[t].state != DONE)
				stuck();
		sem_post(&done);
	}
	return NULL;
}

static char *grp[NT + 2], *result, *part[2];
static size_t nresult, npart[2];
static long runs, maxsteps, nsizes, sizes[8];

static void history(FILE *out, int isstuck, long *bal)
{
	int i, n = 0;
	char *s[NT + 2];

	s[0] = part[0];
	for (i = 1; i <= nthr; ++i)
		s[i] = thr[i].out;
	s[nthr + 1] = part[1];
	fprintf(out, "{\"sizes\":[");
	for (i = 0; i < nsizes; ++i)
		fprintf(out, i ? ",%ld" : "%ld", sizes[i]);
	fprintf(out, "],\"ops\":[");
	for (i = 0; i <= nthr + 1; ++i)
		if (s[i] && s[i][0])
			fprintf(out, "%s%s", n++ ? "," : "", s[i]);
	fprintf(out, "],\"stuck\":%s,\"bal\":{\"mem\":%ld,\"map\":%ld,"
		"\"fd\":%ld,\"lock\":%ld}", isstuck ? "true" : "false", bal[0],
		bal[1], bal[2], bal[3]);
}
static void schedule(FILE *out)
{
	fprintf(out, ",\"sch\":\"S");
	print_schedule(out);
	fprintf(out, "\"}\n");
}
/* The threads wait for each other: this is how far the case gets. */
static void stuck(void)
{
	long bal[4] = { 0 };
	int t;

	for (t = 1; t <= nthr; ++t)
		if (thr[t].state != DONE)
			thr[t].out = NULL;
	history(stdout, 1, bal);
	schedule(stdout);
	printf("{\"runs\":%ld,\"end\":true,\"hist\":-1}\n", runs);
	fflush(stdout);
	_exit(0);
}

static void run(void)
{
	int i;
	long fds, bal[4];

	alarm(20);
	runs += 1;
	ntaken = 0;
	step = now = 0;
	pos = used = 0;
	n_mem = n_lock = n_map = n_bc = 0;
	fail_at = -1;
	fail_map = 0;
	fds = nfds();
	for (i = 1; i <= NT; ++i)
		LIB(img[i] = pt_image_alloc("name"));
	for (i = 1; i <= 2; ++i)
		LIB(isc[i] = pt_iscache_alloc("name"));
	for (i = 1; i <= NT; ++i) {
		held[i] = 0;
		pt_msec_cache_init(&hold[i]);
	}
	free(part[0]);
	free(part[1]);
	part[0] = part[1] = NULL;
	vout = open_memstream(&part[0], &npart[0]);
	group(grp[0]);
	fclose(vout);
	for (i = 1; i <= nthr; ++i) {
		free(thr[i].out);
		thr[i].out = NULL;
		thr[i].ops = grp[i];
		thr[i].state = READY;
	}
	i = choose(0);
	if (i) {
		sem_post(&thr[i].go);
		while (sem_wait(&done))
			;
	}
	vout = open_memstream(&part[1], &npart[1]);
	group(grp[nthr + 1]);
	for (i = 1; i <= NT; ++i)
		LIB(dropit(i));
	for (i = 1; i <= 2; ++i)
		LIB(pt_iscache_free(isc[i]));
	for (i = 1; i <= NT; ++i)
		LIB(pt_image_free(img[i]));
	fclose(vout);
	for (i = 0; i < ngone; ++i)
		__real_munmap(gone[i].a, gone[i].n);
	ngone = 0;
	bal[0] = n_mem;
	bal[1] = n_map + n_bc;
	bal[2] = nfds() - fds;
	bal[3] = n_lock;
	free(result);
	vout = open_memstream(&result, &nresult);
	history(vout, 0, bal);
	fclose(vout);
	if (step > maxsteps)
		maxsteps = step;
	if (learning)
		learn();
}

/* ---- all runs of a case ------------------------------------------------ */
#define NSEEN 65536
static uint64_t seen[NSEEN];
static int nseen;

static void keep(void)
{
	uint64_t h = 1469598103934665603ull;
	size_t i;
	unsigned k;

	for (i = 0; i < nresult; ++i)
		h = (h ^ (uint8_t) result[i]) * 1099511628211ull;
	for (k = (unsigned) h % NSEEN; seen[k]; k = (k + 1) % NSEEN)
		if (seen[k] == h)
			return;
	if (nseen > NSEEN / 2)
		return;
	seen[k] = h;
	nseen += 1;
	fwrite(result, 1, nresult, stdout);
	schedule(stdout);
}
static void random_run(void)
{
	int i;

	nplan = 1 + (int) (rand64() % 5);
	for (i = 0; i < nplan; ++i) {
		plan[i].step = (long) (rand64() % (uint64_t) (maxsteps + 1));
		plan[i].t = (int) (rand64() & 0xff);
	}
	for (i = nthr; i > 1; --i) {
		int j = 1 + (int) (rand64() % (unsigned) i), o = order[i];

		order[i] = order[j];
		order[j] = o;
	}
	run();
}
static void one(char *line)
{
	char *p, *q, *save = NULL;
	int i, n = 0;
	long max = 1;
	char how;

	memset(seen, 0, sizeof(seen));
	memset(site, 0, sizeof(site));
	nseen = nsites = 0;
	runs = maxsteps = 0;
	how = line[0];
	p = line + 1;
	nplan = bound = 0;
	if (how == 'S') {
		while (*p && *p != ' ') {
			plan[nplan].step = strtol(p, &p, 10);
			plan[nplan].t = (int) strtol(p + 1, &p, 10);
			nplan += nplan < 63;
			if (*p == ',')
				++p;
		}
	} else {
		rnd = (uint64_t) strtol(p, &p, 10);
		bound = (int) rnd;
		rnd = rnd * 0x9e3779b97f4a7c15ull + 0x1234567;
		max = strtol(p + 1, &p, 10);
	}
	base = strtoull(p, &p, 16);
	memset(fsize_, 0, sizeof(fsize_));
	while (*p == ' ')
		++p;
	for (nsizes = 0; *p && *p != ' ';) {
		sizes[nsizes] = strtol(p, &p, 10);
		fill((int) nsizes, sizes[nsizes]);
		nsizes += 1;
		if (*p == ',')
			++p;
	}
	for (q = strtok_r(p, "|\n", &save); q && n < NT + 2;
	     q = strtok_r(NULL, "|\n", &save))
		grp[n++] = q;
	nthr = n - 2;
	for (i = 0; i <= NT; ++i)
		order[i] = i;
	nch = 0;
	mode = how;
	switch (how) {
	case 'S':
		run();
		keep();
		break;
	case 'R':
		mode = 0;
		run();
		keep();
		mode = 'R';
		while (runs < max) {
			random_run();
			keep();
		}
		break;
	case 'A':
		/* find the accesses to what is shared */
		learning = 1;
		mode = 0;
		run();
		mode = 'R';
		while (runs < 40)
			random_run();
		learning = 0;
		nplan = 0;
		for (i = 0; i <= NT; ++i)
			order[i] = i;
		max += runs;
		mode = 'A';
		/* fallthrough */
	case 'L':
		do {
			run();
			keep();
			nch = pos < nch ? pos : nch;
			while (nch && ch[nch - 1].cur == ch[nch - 1].n - 1)
				nch -= 1;
			if (nch)
				ch[nch - 1].cur += 1;
		} while (nch && runs < max);
		break;
	}
	printf("{\"runs\":%ld,\"end\":%s,\"hist\":%d,\"sites\":%d,"
	       "\"steps\":%ld}\n", runs,
	       how == 'R' || !nch ? "true" : "false", nseen, nsites, maxsteps);
	fflush(stdout);
	for (i = 0; i < nsizes; ++i)
		unlink(fname(i));
}

int main(int argc, char **argv)
{
	size_t cap = 0;
	int i;

	__sanitizer_set_death_callback(on_death);
	snprintf(dir, sizeof(dir), "%s/vimgXXXXXX", argc > 1 ? argv[1] : "/tmp");
	if (!mkdtemp(dir))
		return 3;
	sem_init(&done, 0, 0);
	for (i = 1; i <= NT; ++i) {
		sem_init(&thr[i].go, 0, 0);
		if (pthread_create(&thr[i].id, NULL, worker,
				   (void *) (intptr_t) i))
			return 3;
	}
	while (getline(&case_line, &cap, stdin) > 0) {
		alarm(20);
		one(case_line);
	}
	rmdir(dir);
	return 0;
}
