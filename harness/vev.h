/* Printing events; configurations of the drivers. */
#ifndef VEV_H
#define VEV_H
#include <stddef.h>
#include "vj.h"

/* Fields that are not valid are printed as zero. */
static inline void jev(const struct pt_event *ev)
{
	static const char *const nm[] = {
		"enabled", "disabled", "async_disabled", "async_branch",
		"paging", "async_paging", "overflow", "exec_mode", "tsx",
		"stop", "vmcs", "async_vmcs", "exstop", "mwait", "pwre",
		"pwrx", "ptwrite", "tick", "cbr", "mnt", "tip", "tnt",
		"iflags", "interrupt", "iret", "smi", "rsm", "sipi", "init",
		"vmentry", "vmexit", "shutdown", "uintr", "uiret", "trig"
	};
	unsigned t = (unsigned) ev->type;
	int s = ev->ip_suppressed;

	if (t >= sizeof(nm) / sizeof(nm[0])) {
		J("{\"t\":\"?%u\"}", t);
		return;
	}
	J("{\"t\":\"%s\",\"su\":%u,\"ips\":%u,\"ht\":%u,\"tsc\":", nm[t],
	  ev->status_update, ev->ip_suppressed, ev->has_tsc);
	jw(ev->has_tsc ? ev->tsc : 0);
	J(",\"lm\":%u,\"lc\":%u,\"p\":{", ev->lost_mtc, ev->lost_cyc);
#define V ev->variant
#define IP(f) do { J("\"ip\":"); jw(s ? 0 : (f)); } while (0)
	switch (ev->type) {
	case ptev_enabled:
		IP(V.enabled.ip);
		J(",\"resumed\":%u", V.enabled.resumed);
		break;
	case ptev_disabled: IP(V.disabled.ip); break;
	case ptev_async_disabled:
		J("\"at\":"); jw(V.async_disabled.at); J(",");
		IP(V.async_disabled.ip);
		break;
	case ptev_async_branch:
		J("\"from\":"); jw(V.async_branch.from);
		J(",\"to\":"); jw(s ? 0 : V.async_branch.to);
		break;
	case ptev_paging:
		J("\"cr3\":"); jw(V.paging.cr3);
		J(",\"nr\":%u", V.paging.non_root);
		break;
	case ptev_async_paging:
		J("\"cr3\":"); jw(V.async_paging.cr3);
		J(",\"nr\":%u,", V.async_paging.non_root);
		IP(V.async_paging.ip);
		break;
	case ptev_overflow: IP(V.overflow.ip); break;
	case ptev_exec_mode:
		J("\"mode\":%u,", (unsigned) V.exec_mode.mode);
		IP(V.exec_mode.ip);
		break;
	case ptev_tsx:
		J("\"intx\":%u,\"abrt\":%u,", V.tsx.speculative,
		  V.tsx.aborted);
		IP(V.tsx.ip);
		break;
	case ptev_stop: J("\"z\":0"); break;
	case ptev_vmcs: J("\"base\":"); jw(V.vmcs.base); break;
	case ptev_async_vmcs:
		J("\"base\":"); jw(V.async_vmcs.base); J(",");
		IP(V.async_vmcs.ip);
		break;
	case ptev_exstop: IP(V.exstop.ip); break;
	case ptev_mwait:
		J("\"hints\":"); jw(V.mwait.hints);
		J(",\"ext\":"); jw(V.mwait.ext); J(",");
		IP(V.mwait.ip);
		break;
	case ptev_pwre:
		J("\"state\":%u,\"sub\":%u,\"hw\":%u", V.pwre.state,
		  V.pwre.sub_state, V.pwre.hw);
		break;
	case ptev_pwrx:
		J("\"last\":%u,\"deepest\":%u,\"int\":%u,\"store\":%u,"
		  "\"auto\":%u", V.pwrx.last, V.pwrx.deepest,
		  V.pwrx.interrupt, V.pwrx.store, V.pwrx.autonomous);
		break;
	case ptev_ptwrite:
		J("\"size\":%u,\"payload\":", V.ptwrite.size);
		jw(V.ptwrite.payload); J(",");
		IP(V.ptwrite.ip);
		break;
	case ptev_tick: IP(V.tick.ip); break;
	case ptev_cbr: J("\"ratio\":%u", V.cbr.ratio); break;
	case ptev_mnt: J("\"payload\":"); jw(V.mnt.payload); break;
	case ptev_tip: IP(V.tip.ip); break;
	case ptev_tnt:
		J("\"n\":%u,\"bits\":", V.tnt.size);
		jw(V.tnt.bits);
		break;
	case ptev_iflags:
		J("\"iflag\":%u,", V.iflags.iflag);
		IP(V.iflags.ip);
		break;
	case ptev_interrupt:
		J("\"has_cr2\":%u,\"vector\":%u,\"cr2\":", V.interrupt.has_cr2,
		  V.interrupt.vector);
		jw(V.interrupt.has_cr2 ? V.interrupt.cr2 : 0); J(",");
		IP(V.interrupt.ip);
		break;
	case ptev_iret: IP(V.iret.ip); break;
	case ptev_smi: IP(V.smi.ip); break;
	case ptev_rsm: J("\"z\":0"); break;
	case ptev_sipi: J("\"vector\":%u", V.sipi.vector); break;
	case ptev_init: IP(V.init.ip); break;
	case ptev_vmentry: IP(V.vmentry.ip); break;
	case ptev_vmexit:
		J("\"has_vector\":%u,\"has_vmxr\":%u,\"has_vmxq\":%u,"
		  "\"vector\":%u,\"vmxr\":", V.vmexit.has_vector,
		  V.vmexit.has_vmxr, V.vmexit.has_vmxq,
		  V.vmexit.has_vector ? V.vmexit.vector : 0);
		jw(V.vmexit.has_vmxr ? V.vmexit.vmxr : 0);
		J(",\"vmxq\":");
		jw(V.vmexit.has_vmxq ? V.vmexit.vmxq : 0); J(",");
		IP(V.vmexit.ip);
		break;
	case ptev_shutdown: IP(V.shutdown.ip); break;
	case ptev_uintr:
		J("\"vector\":%u,", V.uintr.vector);
		IP(V.uintr.ip);
		break;
	case ptev_uiret: IP(V.uiret.ip); break;
	case ptev_trig:
		J("\"trbv\":%u,\"mult\":%u,\"icnt\":%u,", V.trig.trbv,
		  V.trig.mult, s ? 0 : V.trig.icnt);
		IP(V.trig.ip);
		break;
	}
#undef V
#undef IP
	J("}}");
}

static int vcb_size;
static int vcb(struct pt_packet_unknown *u, const struct pt_config *c,
	       const uint8_t *pos, void *ctx)
{
	(void) u; (void) c; (void) pos; (void) ctx;
	return vcb_size;
}

/* Configurations are "key=value,..." (decimal; eax, ebx, nom, mtc, cb) plus
 * flags: bdm70 skd010 apl11 apl12 skl168 (errata), iflags, keep, tick, eoc,
 * eoj.  Prints it as the JSON object's members. */
static inline void vconfig(struct pt_config *cfg, char *s, int layer)
{
	char *tok, *save = NULL;
	uint32_t eax = 0, ebx = 0, mtc = 0, nom = 0;
	int cb = -9999, iflags = 0, keep = 0, tick = 0, eoc = 0, eoj = 0;
	size_t usize = sizeof(*cfg);

	pt_config_init(cfg);
	for (tok = strtok_r(s, ",", &save); tok;
	     tok = strtok_r(NULL, ",", &save)) {
		char *eq = strchr(tok, '=');
		uint32_t v = eq ? (uint32_t) strtoul(eq + 1, NULL, 10) : 1;

		if (eq)
			*eq = 0;
		if (!strncmp(tok, "filt", 4) && eq) {
			/* filt<n>=<begin>-<end>: trace in that range (hex) */
			unsigned k = (unsigned) (tok[4] - '0') & 3;
			char *d = eq + 1;
			uint64_t a = strtoull(d, &d, 16),
				 b = strtoull(d + 1, NULL, 16);

			cfg->addr_filter.config.addr_cfg |= 1ull << (4 * k);
			switch (k) {
			case 0: cfg->addr_filter.addr0_a = a;
				cfg->addr_filter.addr0_b = b; break;
			case 1: cfg->addr_filter.addr1_a = a;
				cfg->addr_filter.addr1_b = b; break;
			case 2: cfg->addr_filter.addr2_a = a;
				cfg->addr_filter.addr2_b = b; break;
			case 3: cfg->addr_filter.addr3_a = a;
				cfg->addr_filter.addr3_b = b; break;
			}
			continue;
		}
#define K(x) (!strcmp(tok, x))
		if K("eax") eax = v;
		else if K("ebx") ebx = v;
		else if K("mtc") mtc = v;
		else if K("nom") nom = v;
		else if K("cb") cb = (int) v;
		else if K("iflags") iflags = 1;
		else if K("keep") keep = 1;
		else if K("tick") tick = 1;
		else if K("eoc") eoc = 1;
		else if K("eoj") eoj = 1;
		else if K("bdm70") cfg->errata.bdm70 = 1;
		else if K("bdm64") cfg->errata.bdm64 = 1;
		else if K("skd007") cfg->errata.skd007 = 1;
		else if K("skd022") cfg->errata.skd022 = 1;
		else if K("skd010") cfg->errata.skd010 = 1;
		else if K("skl014") cfg->errata.skl014 = 1;
		else if K("apl11") cfg->errata.apl11 = 1;
		else if K("apl12") cfg->errata.apl12 = 1;
		else if K("skl168") cfg->errata.skl168 = 1;
		else if K("skz84") cfg->errata.skz84 = 1;
		else if K("size") usize = v;
		else if K("none") ;
		else abort();
#undef K
	}
	cfg->cpuid_0x15_eax = eax;
	cfg->cpuid_0x15_ebx = ebx;
	cfg->mtc_freq = (uint8_t) mtc;
	cfg->nom_freq = (uint8_t) nom;
	if (cb != -9999) {
		vcb_size = cb;
		cfg->decode.callback = vcb;
	}
	switch (layer) {
	case 'e':
		cfg->flags.variant.event.keep_tcal_on_ovf = keep;
		cfg->flags.variant.event.enable_iflags_events = iflags;
		break;
	case 'q':
		cfg->flags.variant.query.keep_tcal_on_ovf = keep;
		cfg->flags.variant.query.enable_iflags_events = iflags;
		break;
	case 'i':
		cfg->flags.variant.insn.keep_tcal_on_ovf = keep;
		cfg->flags.variant.insn.enable_iflags_events = iflags;
		cfg->flags.variant.insn.enable_tick_events = tick;
		break;
	case 'b':
		cfg->flags.variant.block.keep_tcal_on_ovf = keep;
		cfg->flags.variant.block.enable_iflags_events = iflags;
		cfg->flags.variant.block.enable_tick_events = tick;
		cfg->flags.variant.block.end_on_call = eoc;
		cfg->flags.variant.block.end_on_jump = eoj;
		break;
	}
	/* The user's structure may be smaller: the rest counts as zero. */
	if (usize < sizeof(*cfg)) {
		memset((uint8_t *) cfg + usize, 0, sizeof(*cfg) - usize);
		if (!cfg->decode.callback)
			cb = -9999;
		switch (layer) {
#define R(x) keep = cfg->flags.variant.x.keep_tcal_on_ovf, \
	     iflags = cfg->flags.variant.x.enable_iflags_events
		case 'e': R(event); break;
		case 'q': R(query); break;
		case 'i': R(insn);
			tick = cfg->flags.variant.insn.enable_tick_events;
			break;
		case 'b': R(block);
			tick = cfg->flags.variant.block.enable_tick_events;
			eoc = cfg->flags.variant.block.end_on_call;
			eoj = cfg->flags.variant.block.end_on_jump;
			break;
#undef R
		}
	}
	cfg->size = usize;
#define B(x) ((x) ? "true" : "false")
	J("\"cb\":%d,\"mtc\":%u,\"nom\":%u,\"eax\":", cb, cfg->mtc_freq,
	  cfg->nom_freq);
	jw(cfg->cpuid_0x15_eax);
	J(",\"ebx\":");
	jw(cfg->cpuid_0x15_ebx);
	J(",\"bdm70\":%s,\"bdm64\":%s,\"skd007\":%s,\"skd022\":%s,"
	  "\"skd010\":%s,\"skl014\":%s,\"apl11\":%s,\"apl12\":%s,"
	  "\"skl168\":%s,\"skz84\":%s,\"iflags\":%s,\"keep\":%s,"
	  "\"tick\":%s", B(cfg->errata.bdm70), B(cfg->errata.bdm64),
	  B(cfg->errata.skd007), B(cfg->errata.skd022), B(cfg->errata.skd010),
	  B(cfg->errata.skl014), B(cfg->errata.apl11), B(cfg->errata.apl12),
	  B(cfg->errata.skl168), B(cfg->errata.skz84), B(iflags), B(keep),
	  B(tick));
#undef B
}

/* The trace at a chosen alignment, surrounded by nothing (ASan guards it). */
static inline uint8_t *vbuffer(const char *hex, unsigned shift, size_t *n,
			       uint8_t **base)
{
	uint8_t *p = unhex(hex, n);

	*base = malloc(*n + shift + (*n + shift == 0));
	memcpy(*base + shift, p, *n);
	free(p);
	return *base + shift;
}
/* The configuration as the user has it: exactly as big as it says.  Call
 * vuser_done() after allocating a decoder: the decoder works on its own copy. */
static struct pt_config *vuser(const struct pt_config *cfg)
{
	struct pt_config *u = malloc(cfg->size);

	memcpy(u, cfg, cfg->size < sizeof(*cfg) ? cfg->size : sizeof(*cfg));
	if (sizeof(*cfg) < cfg->size)
		memset((uint8_t *) u + sizeof(*cfg), 0xff,
		       cfg->size - sizeof(*cfg));
	return u;
}

static void vuser_done(struct pt_config *u)
{
	memset(u, 0xdb, u->size);
	free(u);
}
#endif
