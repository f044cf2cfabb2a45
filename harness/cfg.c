/* Configurations, cpu errata and cpu parsing (C11, C22).
 *
 * stdin, one case per line:
 *   E <vendor> <family> <model> <stepping>     pt_cpu_errata
 *   P <string>                                 pt_cpu_parse
 *   C <layer> <size> <begin> <end> <hex>       allocate and get the config
 *     layer n|p|e|q|i|b (n: encoder); begin, end: -1 NULL or an offset into a
 *     buffer; hex: the bytes of the user's structure (size of them)
 *   F <n> <cfg a b>*4 <addr>                   pt_filter_addr_check
 */
#include <stddef.h>
#include "vj.h"
#include "pt_cpu.h"
#include "pt_config.h"

static const struct pt_config *get(int layer, void *d)
{
	switch (layer) {
	case 'n': return pt_enc_get_config(d);
	case 'p': return pt_pkt_get_config(d);
	case 'e': return pt_evt_get_config(d);
	case 'q': return pt_qry_get_config(d);
	case 'i': return pt_insn_get_config(d);
	default: return pt_blk_get_config(d);
	}
}

static void rel(const struct pt_config *c, uint8_t *buf, const char *name)
{
	struct pt_config x = *c;

	J(",\"%s\":{\"begin\":%lld,\"end\":%lld,\"size\":%u,\"b\":", name,
	  (long long) (x.begin - buf), (long long) (x.end - buf),
	  (unsigned) x.size);
	jbytes((uint8_t *) &x, sizeof(x));
	J("}");
}

int main(void)
{
	static char line[1 << 16], hex[1 << 16];
	static uint8_t buf[64];

	vout = stdout;
	while (fgets(line, sizeof(line), stdin)) {
		vcase();
		if (line[0] == 'E') {
			struct pt_errata e;
			struct pt_cpu c;
			unsigned v, f, m, s, k, n = 0;
			uint32_t rest = 0;
			int st;

			sscanf(line, "E %u %u %u %u", &v, &f, &m, &s);
			memset(&c, 0, sizeof(c));
			c.vendor = (enum pt_cpu_vendor) v;
			c.family = (uint16_t) f;
			c.model = (uint8_t) m;
			c.stepping = (uint8_t) s;
			memset(&e, 0xff, sizeof(e));
			st = pt_cpu_errata(&e, &c);
			J("{\"k\":\"E\",\"vendor\":%u,\"family\":%u,"
			  "\"model\":%u,\"stepping\":%u,\"e\":\"%s\","
			  "\"set\":[", v, f, m, s, ename(st));
#define X(x) do { if (st >= 0 && e.x) J(n++ ? ",\"" #x "\"" : "\"" #x "\""); \
		  e.x = 0; } while (0)
			X(bdm70); X(bdm64); X(skd007); X(skd022); X(skd010);
			X(skl014); X(apl12); X(apl11); X(skl168); X(skz84);
#undef X
			for (k = 0; k < sizeof(e); ++k)
				rest |= ((uint8_t *) &e)[k];
			J("],\"rest\":%d}\n", st < 0 ? 0 : rest != 0);
		} else if (line[0] == 'P') {
			struct pt_cpu c;
			char *s = line + 2;
			int st;

			s[strcspn(s, "\n")] = 0;
			memset(&c, 0, sizeof(c));
			st = pt_cpu_parse(&c, s);
			J("{\"k\":\"P\",\"e\":\"%s\",\"vendor\":%d,"
			  "\"family\":%u,\"model\":%u,\"stepping\":%u,"
			  "\"s\":", ename(st), c.vendor, c.family, c.model,
			  c.stepping);
			jbytes((uint8_t *) s, strlen(s));
			J("}\n");
		} else if (line[0] == 'F') {
			struct pt_conf_addr_filter f;
			uint64_t a;
			unsigned k, cc;
			int off = 2, n, st;

			memset(&f, 0, sizeof(f));
			J("{\"k\":\"F\",\"f\":[");
			for (k = 0; k < 4; ++k) {
				uint64_t x, y;

				sscanf(line + off, "%u %" SCNx64 " %" SCNx64
				       "%n", &cc, &x, &y, &n);
				off += n;
				f.config.addr_cfg |= (uint64_t) cc << (4 * k);
				(&f.addr0_a)[2 * k] = x;
				(&f.addr0_a)[2 * k + 1] = y;
				J("%s{\"c\":%u,\"a\":", k ? "," : "", cc);
				jw(x);
				J(",\"b\":");
				jw(y);
				J("}");
			}
			sscanf(line + off, "%" SCNx64, &a);
			st = pt_filter_addr_check(&f, a);
			J("],\"a\":");
			jw(a);
			J(",\"r\":%d}\n", st);
		} else if (line[0] == 'C') {
			struct pt_config *u;
			unsigned size;
			int b, e, layer;
			char lay;
			uint8_t *p;
			size_t n;
			void *d;

			sscanf(line, "C %c %u %d %d %s", &lay, &size, &b, &e,
			       hex);
			layer = lay;
			p = unhex(hex, &n);
			u = malloc(n < 24 ? 24 : n);
			memset(u, 0, n < 24 ? 24 : n);
			memcpy(u, p, n);
			u->size = size;
			u->begin = b < 0 ? NULL : buf + b;
			u->end = e < 0 ? NULL : buf + e;
			J("{\"k\":\"C\",\"layer\":\"%c\",\"size\":%u,"
			  "\"begin\":%d,\"end\":%d,\"sizeof\":%u,\"min\":%u,"
			  "\"flags\":%u,\"flags_end\":%u,\"in\":", lay, size,
			  b, e, (unsigned) sizeof(*u),
			  (unsigned) offsetof(struct pt_config, decode),
			  (unsigned) offsetof(struct pt_config, flags),
			  (unsigned) (offsetof(struct pt_config, flags) +
				      sizeof(u->flags)));
			jbytes((uint8_t *) u, n);
			switch (layer) {
			case 'n': d = pt_alloc_encoder(u); break;
			case 'p': d = pt_pkt_alloc_decoder(u); break;
			case 'e': d = pt_evt_alloc_decoder(u); break;
			case 'q': d = pt_qry_alloc_decoder(u); break;
			case 'i': d = pt_insn_alloc_decoder(u); break;
			default: d = pt_blk_alloc_decoder(u); break;
			}
			J(",\"ok\":%d", d != NULL);
			if (d)
				rel(get(layer, d), buf, "got");
			else
				J(",\"got\":{\"begin\":0}");
			memset(u, 0x5a, n < 24 ? 24 : n);
			free(u);
			if (d)
				rel(get(layer, d), buf, "later");
			else
				J(",\"later\":{\"begin\":0}");
			J("}\n");
			switch (layer) {
			case 'n': pt_free_encoder(d); break;
			case 'p': pt_pkt_free_decoder(d); break;
			case 'e': pt_evt_free_decoder(d); break;
			case 'q': pt_qry_free_decoder(d); break;
			case 'i': pt_insn_free_decoder(d); break;
			default: pt_blk_free_decoder(d); break;
			}
			free(p);
		}
	}
	return 0;
}
