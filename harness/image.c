/* Histories of images and image section caches (C12, C13).
 *
 * stdin, one case per line: <base> <size>[,<size>...] <op> ...
 * An op is a name and numbers separated by commas; addresses are relative to
 * the base.  "fail,<k>" lets the k-th allocation of the next op fail, "nomap"
 * lets mmap() fail in the next op.
 *   add,im,f,off,size,cr,vm,a,mode     pt_image_add_file()
 *   addc,im,c,id,cr,vm,mode            pt_image_add_cached()
 *   copy,im,src                        pt_image_copy()
 *   rmf,im,f,cr,vm,mode  rma,im,cr,vm,mode   pt_image_remove_by_*()
 *   cb,im,kind                         pt_image_set_callback()
 *   read,im,n,cr,vm,a                  read as the decoders do
 *   cadd,c,f,off,size,a                pt_iscache_add_file()
 *   cread,c,id,n,a                     pt_iscache_read()
 *   limit,c,n                          pt_iscache_set_limit(), -1: no limit
 *   hold,h,im,n,cr,vm,a                fetch a section and keep using it
 *   hread,h,n,a  hval,h,im,a  bc,h  drop,h
 *   ifree,im  cfree,c                  free and allocate again
 *   grow,f,size  unlink,f
 * The mode says how the address space is given: 0 completely, 1 NULL,
 * 2 a structure that ends before vmcs, 3 a bigger structure, 4 only its size.
 *
 * Output: one JSON line per case for ImageTrace.tla.
 */
#include "imgops.h"

static int unmapped(void *a, size_t n) { return __real_munmap(a, n); }
static void op_end(void) { }

int __wrap_mtx_init(mtx_t *m, int t)
{
	n_lock += in_op;
	return __real_mtx_init(m, t);
}
void __wrap_mtx_destroy(mtx_t *m)
{
	n_lock -= in_op;
	__real_mtx_destroy(m);
}

static void one(char *line)
{
	char *tok, *save = NULL, *q;
	int i, first = 1;
	long fds;

	tok = strtok_r(line, " \n", &save);
	if (!tok)
		return;
	base = strtoull(tok, NULL, 16);
	tok = strtok_r(NULL, " \n", &save);
	memset(fsize_, 0, sizeof(fsize_));
	nfile = 0;
	J("{\"sizes\":[");
	for (q = tok; *q;) {
		long n = strtol(q, &q, 10);

		fill(nfile, n);
		J(nfile ? ",%ld" : "%ld", n);
		nfile += 1;
		if (*q == ',')
			++q;
	}
	J("],\"ops\":[");
	n_mem = n_lock = n_map = n_bc = 0;
	fail_at = -1;
	fail_map = 0;
	fds = nfds();
	for (i = 1; i <= 3; ++i)
		LIB(img[i] = pt_image_alloc("name"));
	for (i = 1; i <= 2; ++i) {
		LIB(isc[i] = pt_iscache_alloc("name"));
		held[i] = 0;
		pt_msec_cache_init(&hold[i]);
	}
	while ((tok = strtok_r(NULL, " \n", &save)))
		if (op(tok, first))
			first = 0;
	/* caches and images go away in any order */
	for (i = 1; i <= 2; ++i)
		LIB(dropit(i));
	if (base & 0x10000) {
		for (i = 1; i <= 3; ++i)
			LIB(pt_image_free(img[i]));
		for (i = 1; i <= 2; ++i)
			LIB(pt_iscache_free(isc[i]));
	} else {
		for (i = 1; i <= 2; ++i)
			LIB(pt_iscache_free(isc[i]));
		for (i = 1; i <= 3; ++i)
			LIB(pt_image_free(img[i]));
	}
	J("],\"bal\":{\"mem\":%ld,\"map\":%ld,\"fd\":%ld,\"lock\":%ld}}\n",
	  n_mem, n_map + n_bc, nfds() - fds, n_lock);
	for (i = 0; i < nfile; ++i)
		unlink(fname(i));
	fflush(vout);
}

int main(int argc, char **argv)
{
	char *line = NULL;
	size_t cap = 0;

	vout = stdout;
	snprintf(dir, sizeof(dir), "%s/vimgXXXXXX", argc > 1 ? argv[1] : "/tmp");
	if (!mkdtemp(dir))
		return 3;
	while (getline(&line, &cap, stdin) > 0) {
		vcase();
		one(line);
	}
	rmdir(dir);
	return 0;
}
