/* Sideband sessions with scripted decoders (C15).
 *
 * stdin, one case per line: <time>[,<time>...] <item> ...
 * Times are 64-bit hex numbers, ascending; elsewhere they are indices, from 0.
 *   D<primary>:<fetch>:<apply>:<print>   the script of the next decoder, each
 *       a list of results separated by commas: a time for fetch; "-" and an
 *       error number to fail; "." for zero; "i<n>" sets the image to n; an
 *       empty list is a missing function; the last result is repeated
 *   a<d>[!]                  add decoder d; ! runs out of memory
 *   n                        pt_sb_init_decoders()
 *   e<t>,<has>,<size>,<stream>   pt_sb_event(), size: 0 complete, else bytes
 *                            less than complete, or more if negative
 *   u<t>                     pt_sb_dump()
 * The session is freed at the end.
 *
 * Output: one JSON line per case for SbTrace.tla.
 */
#include <malloc.h>
#include <stddef.h>
#include "vj.h"
#include "libipt-sb.h"

static uint64_t times[32];
static int ntimes, first;
static struct pt_image *imgs[5];
static struct sdec {
	char *f, *a, *p;
	int prim;
} sd[8];
static int nsd;

static int time_ix(uint64_t t)
{
	int i;

	for (i = 0; i < ntimes; ++i)
		if (times[i] == t)
			return i;
	return -1;
}
static int img_ix(struct pt_image **im)
{
	int i;

	if (!im)
		return -1;
	for (i = 0; i < 5; ++i)
		if (imgs[i] == *im)
			return i;
	return -2;
}
#define S(...) (J(first ? "{" : ",{"), first = 0, J(__VA_ARGS__), J("}"))

/* The next result of a script. */
static const char *next(char **s)
{
	static char b[32];
	char *e = strchr(*s, ',');
	size_t n = e ? (size_t) (e - *s) : strlen(*s);

	memcpy(b, *s, n);
	b[n] = 0;
	if (e)
		*s = e + 1;
	return b;
}
static int fetch(struct pt_sb_session *s, uint64_t *tsc, void *priv)
{
	struct sdec *d = priv;
	const char *r = next(&d->f);
	int t = atoi(r);

	(void) s;
	if (r[0] == '-') {
		S("\"k\":\"fetch\",\"d\":%d,\"e\":\"%s\",\"t\":0",
		  (int) (d - sd) + 1, ename(t));
		return t;
	}
	S("\"k\":\"fetch\",\"d\":%d,\"e\":\"\",\"t\":%d", (int) (d - sd) + 1,
	  t);
	*tsc = times[t];
	return 0;
}
static int apply(struct pt_sb_session *s, struct pt_image **im,
		 const struct pt_event *ev, void *priv)
{
	struct sdec *d = priv;
	const char *r = next(&d->a);
	int e = r[0] == '-' ? atoi(r) : 0, in = img_ix(im);

	(void) s;
	if (r[0] == 'i' && im)
		*im = imgs[atoi(r + 1)];
	S("\"k\":\"apply\",\"d\":%d,\"e\":\"%s\",\"t\":%d,\"has\":%u,"
	  "\"ty\":%d,\"ip\":%u,\"in\":%d,\"out\":%d", (int) (d - sd) + 1,
	  ename(e), time_ix(ev->tsc), ev->has_tsc, ev->type,
	  (unsigned) ev->variant.enabled.ip, in, img_ix(im));
	return e;
}
static int print(struct pt_sb_session *s, FILE *f, uint32_t flags, void *priv)
{
	struct sdec *d = priv;
	const char *r = next(&d->p);
	int e = r[0] == '-' ? atoi(r) : 0;

	(void) s;
	S("\"k\":\"print\",\"d\":%d,\"e\":\"%s\",\"fl\":%d", (int) (d - sd) + 1,
	  ename(e), f == stdout ? (int) flags : -1);
	return e;
}
static void dtor(void *priv)
{
	S("\"k\":\"dtor\",\"d\":%d", (int) ((struct sdec *) priv - sd) + 1);
}

static int in_op, failing;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n)
{
	if (in_op && failing)
		return NULL;
	return __real_malloc(n);
}

static void one(char *line)
{
	struct pt_sb_session *s;
	char *tok, *save = NULL, *p;
	struct pt_image *im = imgs[0];
	int e;

	tok = strtok_r(line, " \n", &save);
	if (!tok)
		return;
	ntimes = nsd = 0;
	first = 1;
	for (p = tok; *p;) {
		times[ntimes++] = strtoull(p, &p, 16);
		if (*p == ',')
			++p;
	}
	s = pt_sb_alloc(NULL);
	J("{\"steps\":[");
	while ((tok = strtok_r(NULL, " \n", &save))) {
		long v[4] = { 0 };
		int n = 0;

		if (*tok == 'D') {
			struct sdec *d = &sd[nsd++];

			d->prim = tok[1] - '0';
			d->f = tok + 3;
			d->a = strchr(d->f, ':');
			*d->a++ = 0;
			d->p = strchr(d->a, ':');
			*d->p++ = 0;
			continue;
		}
		for (p = tok + 1; *p && *p != '!' && n < 4;) {
			v[n++] = strtol(p, &p, 10);
			if (*p == ',')
				++p;
		}
		switch (*tok) {
		case 'a': {
			struct pt_sb_decoder_config c, *cc;
			struct sdec *d = &sd[v[0] - 1];

			memset(&c, 0, sizeof(c));
			c.size = sizeof(c);
			c.fetch = *d->f ? fetch : NULL;
			c.apply = *d->a ? apply : NULL;
			c.print = *d->p ? print : NULL;
			c.dtor = dtor;
			c.priv = d;
			c.primary = (unsigned) d->prim;
			cc = __real_malloc(sizeof(c));
			*cc = c;
			failing = *p == '!';
			in_op = 1;
			e = pt_sb_alloc_decoder(s, cc);
			in_op = 0;
			memset(cc, 0xa5, sizeof(*cc));
			free(cc);
			S("\"k\":\"alloc\",\"d\":%ld,\"e\":\"%s\",\"prim\":%d,"
			  "\"fail\":%d,\"nf\":%d,\"na\":%d,\"np\":%d", v[0],
			  ename(e), d->prim, failing, !c.fetch, !c.apply,
			  !c.print);
			break;
		}
		case 'n':
			S("\"k\":\"init\"");
			e = pt_sb_init_decoders(s);
			S("\"k\":\"ret\",\"e\":\"%s\",\"im\":%d", ename(e),
			  img_ix(&im));
			break;
		case 'e': {
			struct pt_event ev;
			uint8_t *u;
			long size = (long) sizeof(ev) - v[2];

			memset(&ev, 0, sizeof(ev));
			ev.type = ptev_enabled;
			ev.has_tsc = v[1] & 1;
			ev.tsc = times[v[0]];
			ev.variant.enabled.ip = 77;
			u = __real_malloc((size_t) size);
			memset(u, 0xa5, (size_t) size);
			memcpy(u, &ev, (size_t) size < sizeof(ev) ?
			       (size_t) size : sizeof(ev));
			S("\"k\":\"event\",\"t\":%ld,\"has\":%ld,\"st\":%ld,"
			  "\"small\":%d,\"ip\":%d", v[0], v[1] & 1, v[3],
			  size < (long) offsetof(struct pt_event, reserved),
			  size >= (long) offsetof(struct pt_event, variant) + 8
			  ? 77 : 0);
			e = pt_sb_event(s, &im, (struct pt_event *) u,
					(size_t) size, v[3] ? stdout : NULL,
					3);
			S("\"k\":\"ret\",\"e\":\"%s\",\"im\":%d", ename(e),
			  img_ix(&im));
			free(u);
			break;
		}
		case 'u':
			S("\"k\":\"dump\",\"t\":%ld", v[0]);
			e = pt_sb_dump(s, stdout, 3, times[v[0]]);
			S("\"k\":\"ret\",\"e\":\"%s\",\"im\":%d", ename(e),
			  img_ix(&im));
			break;
		}
	}
	S("\"k\":\"free\"");
	pt_sb_free(s);
	S("\"k\":\"ret\",\"e\":\"\",\"im\":%d", img_ix(&im));
	J("]}\n");
}

int main(void)
{
	char *line = NULL;
	size_t cap = 0;
	int i;

	vout = stdout;
	for (i = 0; i < 5; ++i)
		imgs[i] = pt_image_alloc(NULL);
	while (getline(&line, &cap, stdin) > 0) {
		vcase();
		one(line);
	}
	for (i = 0; i < 5; ++i)
		pt_image_free(imgs[i]);
	return 0;
}
