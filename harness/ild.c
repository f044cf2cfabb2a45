/* Instruction decode (C18).
 *
 * stdin, one group of cases per line, separated by blanks:
 *   [!]<mode>:<n>:<hex>[:<end>,<end>...]
 *     !: judge branches that wrap at 4G
 *     mode 16|32|64, n: how many of the bytes are available
 *     the ends of the pieces of the image to read them from
 */
#include "vj.h"
#include "pt_insn.h"
#include "pt_ild.h"
#include "intel-pt.h"

static const char *const classes[] = {
	"unknown", "other", "call", "return", "jump", "cond_jump", "far_call",
	"far_return", "far_jump", "ptwrite", "indirect"
};

struct mem {
	uint64_t base;
	unsigned n, nends;
	unsigned ends[16];
	uint8_t b[64];
};

/* Reads stop at the end of the piece that contains the address. */
static int rd(uint8_t *buf, size_t size, const struct pt_asid *asid,
	      uint64_t ip, void *ctx)
{
	struct mem *m = ctx;
	uint64_t off = ip - m->base;
	unsigned k, end = m->n;
	size_t i;

	(void) asid;
	if (m->n <= off)
		return -pte_nomap;
	for (k = 0; k < m->nends; ++k)
		if (off < m->ends[k]) {
			end = m->ends[k] < m->n ? m->ends[k] : m->n;
			break;
		}
	for (i = 0; i < size && off + i < end; ++i)
		buf[i] = m->b[off + i];
	return (int) i;
}

static void one(const char *s, uint32_t seed)
{
	struct pt_insn_ext iext;
	struct pt_insn insn;
	struct mem mem;
	unsigned mode, n, k, len = 0;
	uint64_t ip, next;
	int pos = 0, st, x, wrap = *s == '!';

	memset(&mem, 0, sizeof(mem));
	s += wrap;
	sscanf(s, "%u:%u:%n", &mode, &n, &pos);
	for (s += pos; len < sizeof(mem.b) && sscanf(s, "%2x", &k) == 1; s += 2)
		mem.b[len++] = (uint8_t) k;
	while (*s == ':' || *s == ',') {
		mem.ends[mem.nends++] = (unsigned) strtoul(s + 1, (char **) &s,
							   10);
	}
	mem.n = n;
	ip = 0x400000ull + (seed & 0xffff);
	if (mode == 64 && (seed & 0x10000))
		ip |= 0xffffffff00000000ull;
	if (mode == 32 && (seed & 0x10000))
		ip += 0xc0000000ull;
	mem.base = ip;

	memset(&insn, 0, sizeof(insn));
	memset(&iext, 0xa5, sizeof(iext));
	insn.ip = ip;
	insn.mode = mode == 64 ? ptem_64bit : mode == 32 ? ptem_32bit :
		ptem_16bit;
	if (mem.nends) {
		struct pt_image *image = pt_image_alloc("x");
		struct pt_asid asid;

		pt_asid_init(&asid);
		pt_image_set_callback(image, rd, &mem);
		st = pt_insn_decode(&insn, &iext, image, &asid);
		pt_image_free(image);
		if (st >= 0 && memcmp(insn.raw, mem.b, insn.size))
			st = -999;
	} else {
		uint8_t junk = (uint8_t) (seed >> 5);

		/* The bytes that are not available could be anything. */
		memset(insn.raw, junk, sizeof(insn.raw));
		memcpy(insn.raw, mem.b, n < sizeof(insn.raw) ? n :
		       sizeof(insn.raw));
		insn.size = (uint8_t) n;
		st = pt_ild_decode(&insn, &iext);
	}
	J("{\"w\":%s,\"m\":%u,\"n\":%u,\"r\":%u,\"b\":",
	  wrap ? "true" : "false", mode, n,
	  mem.nends ? (mem.ends[0] < n ? mem.ends[0] : n) : 0);
	jbytes(mem.b, len);
	J(",\"e\":\"%s\"", ename(st));
	if (st < 0) {
		J(",\"s\":0}");
		return;
	}
	J(",\"s\":%u,\"c\":\"%s\",\"p\":%d,\"t\":%s,\"d\":", insn.size,
	  (unsigned) insn.iclass < 11 ? classes[insn.iclass] : "?",
	  !!pt_insn_is_branch(&insn, &iext) |
	  !!pt_insn_is_far_branch(&insn, &iext) << 1 |
	  !!pt_insn_changes_cr3(&insn, &iext) << 2 |
	  !!pt_insn_binds_to_pip(&insn, &iext) << 3 |
	  !!pt_insn_binds_to_vmcs(&insn, &iext) << 4 |
	  !!pt_insn_is_ptwrite(&insn, &iext) << 5 |
	  !!pt_insn_is_iret(&insn, &iext) << 6 |
	  !!pt_insn_is_vmentry(&insn, &iext) << 7 |
	  !!pt_insn_is_uiret(&insn, &iext) << 8,
	  insn.truncated ? "true" : "false");
	if ((insn.iclass == ptic_call || insn.iclass == ptic_jump ||
	     insn.iclass == ptic_cond_jump) && iext.variant.branch.is_direct &&
	    iext.iclass != PTI_INST_JMPABS)
		jw((uint64_t) iext.variant.branch.displacement);
	else
		J("[]");
	next = 0;
	x = pt_insn_next_ip(&next, &insn, &iext);
	J(",\"a\":");
	jw(ip);
	J(",\"x\":\"%s\",\"y\":", ename(x));
	jw(next);
	J("}");
}

int main(void)
{
	static char line[1 << 16];
	uint32_t seed = 12345;

	vout = stdout;
	while (fgets(line, sizeof(line), stdin)) {
		const char *sep = "";
		char *s;

		vcase();
		J("{\"g\":[");
		/* the same case gives the same record */
		for (s = line, seed = 12345; *s && *s != '\n'; ++s)
			seed = seed * 31 + (unsigned char) *s;
		for (s = strtok(line, " \n"); s; s = strtok(NULL, " \n")) {
			J("%s", sep);
			one(s, seed >> 3);
			seed = seed * 1664525 + 1013904223;
			sep = ",";
		}
		J("]}\n");
	}
	vcase();
	return 0;
}
