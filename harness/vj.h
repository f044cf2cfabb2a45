/* Small helpers shared by the drivers: NDJSON output, error names, hex. */
#ifndef VJ_H
#define VJ_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <unistd.h>
#include "intel-pt.h"

#ifndef VJ_TLS
#define VJ_TLS
#endif
static VJ_TLS FILE *vout;

/* Called before every case and at the end: what was recorded so far is
 * written, so that the case that crashes or hangs is the first one missing. */
static inline void vcase(void)
{
	fflush(vout);
	alarm(20);
}

#define J(...) fprintf(vout, __VA_ARGS__)

/* A 64-bit word is its eight bytes, least significant first. */
static inline void jw(uint64_t v)
{
	int i;
	J("[");
	for (i = 0; i < 8; ++i)
		J(i ? ",%u" : "%u", (unsigned) ((v >> (8 * i)) & 0xff));
	J("]");
}
static inline void jbytes(const uint8_t *p, size_t n)
{
	size_t i;
	J("[");
	for (i = 0; i < n; ++i)
		J(i ? ",%u" : "%u", p[i]);
	J("]");
}
static inline const char *errname(int e)
{
	static char buf[16];
	switch (-e) {
	case pte_ok: return "";
	case pte_internal: return "internal";
	case pte_invalid: return "invalid";
	case pte_nosync: return "nosync";
	case pte_bad_opc: return "bad_opc";
	case pte_bad_packet: return "bad_packet";
	case pte_bad_context: return "bad_context";
	case pte_eos: return "eos";
	case pte_bad_query: return "bad_query";
	case pte_nomem: return "nomem";
	case pte_bad_config: return "bad_config";
	case pte_noip: return "noip";
	case pte_ip_suppressed: return "ip_suppressed";
	case pte_nomap: return "nomap";
	case pte_bad_insn: return "bad_insn";
	case pte_no_time: return "no_time";
	case pte_no_cbr: return "no_cbr";
	case pte_bad_image: return "bad_image";
	case pte_bad_lock: return "bad_lock";
	case pte_not_supported: return "not_supported";
	case pte_retstack_empty: return "retstack_empty";
	case pte_bad_retcomp: return "bad_retcomp";
	case pte_bad_status_update: return "bad_status_update";
	case pte_no_enable: return "no_enable";
	case pte_event_ignored: return "event_ignored";
	case pte_overflow: return "overflow";
	case pte_bad_file: return "bad_file";
	case pte_bad_cpu: return "bad_cpu";
	}
	snprintf(buf, sizeof(buf), "e%d", e);
	return buf;
}
static inline const char *ename(int s) { return s < 0 ? errname(s) : ""; }

static inline int hexv(int c)
{
	if ('0' <= c && c <= '9') return c - '0';
	if ('a' <= c && c <= 'f') return c - 'a' + 10;
	if ('A' <= c && c <= 'F') return c - 'A' + 10;
	return -1;
}
/* Decode hex into an exactly sized heap buffer ("-" is empty). */
static inline uint8_t *unhex(const char *s, size_t *n)
{
	size_t i, l = (s[0] == '-') ? 0 : strlen(s) / 2;
	uint8_t *p = malloc(l ? l : 1);
	for (i = 0; i < l; ++i)
		p[i] = (uint8_t) (hexv(s[2*i]) * 16 + hexv(s[2*i+1]));
	*n = l;
	return p;
}

static inline void jpkt(const struct pt_packet *p)
{
	const char *ipn = NULL;

	switch (p->type) {
	case ppt_invalid: J("{\"t\":\"invalid\"}"); return;
	case ppt_unknown: J("{\"t\":\"unknown\"}"); return;
	case ppt_pad: J("{\"t\":\"pad\"}"); return;
	case ppt_psb: J("{\"t\":\"psb\"}"); return;
	case ppt_psbend: J("{\"t\":\"psbend\"}"); return;
	case ppt_stop: J("{\"t\":\"stop\"}"); return;
	case ppt_ovf: J("{\"t\":\"ovf\"}"); return;
	case ppt_fup: ipn = "fup"; goto ip;
	case ppt_tip: ipn = "tip"; goto ip;
	case ppt_tip_pge: ipn = "tip_pge"; goto ip;
	case ppt_tip_pgd: ipn = "tip_pgd"; goto ip;
	ip:
		J("{\"t\":\"%s\",\"ipc\":%d,\"ip\":", ipn,
		  (int) p->payload.ip.ipc);
		jw(p->payload.ip.ip);
		J("}");
		return;
	case ppt_tnt_8:
	case ppt_tnt_64:
		J("{\"t\":\"tnt_%s\",\"n\":%u,\"bits\":",
		  p->type == ppt_tnt_8 ? "8" : "64", p->payload.tnt.bit_size);
		jw(p->payload.tnt.payload);
		J("}");
		return;
	case ppt_mode:
		switch (p->payload.mode.leaf) {
		case pt_mol_exec:
			J("{\"t\":\"mode_exec\",\"csl\":%u,\"csd\":%u,"
			  "\"iflag\":%u}", p->payload.mode.bits.exec.csl,
			  p->payload.mode.bits.exec.csd,
			  p->payload.mode.bits.exec.iflag);
			return;
		case pt_mol_tsx:
			J("{\"t\":\"mode_tsx\",\"intx\":%u,\"abrt\":%u}",
			  p->payload.mode.bits.tsx.intx,
			  p->payload.mode.bits.tsx.abrt);
			return;
		}
		J("{\"t\":\"mode_?\"}");
		return;
	case ppt_pip:
		J("{\"t\":\"pip\",\"nr\":%u,\"cr3\":", p->payload.pip.nr);
		jw(p->payload.pip.cr3);
		J("}");
		return;
	case ppt_vmcs:
		J("{\"t\":\"vmcs\",\"base\":"); jw(p->payload.vmcs.base);
		J("}");
		return;
	case ppt_cbr:
		J("{\"t\":\"cbr\",\"ratio\":%u}", p->payload.cbr.ratio);
		return;
	case ppt_tsc:
		J("{\"t\":\"tsc\",\"tsc\":"); jw(p->payload.tsc.tsc); J("}");
		return;
	case ppt_tma:
		J("{\"t\":\"tma\",\"ctc\":%u,\"fc\":%u}", p->payload.tma.ctc,
		  p->payload.tma.fc);
		return;
	case ppt_mtc:
		J("{\"t\":\"mtc\",\"ctc\":%u}", p->payload.mtc.ctc);
		return;
	case ppt_cyc:
		J("{\"t\":\"cyc\",\"value\":"); jw(p->payload.cyc.value);
		J("}");
		return;
	case ppt_mnt:
		J("{\"t\":\"mnt\",\"payload\":"); jw(p->payload.mnt.payload);
		J("}");
		return;
	case ppt_exstop:
		J("{\"t\":\"exstop\",\"ip\":%u}", p->payload.exstop.ip);
		return;
	case ppt_mwait:
		J("{\"t\":\"mwait\",\"hints\":"); jw(p->payload.mwait.hints);
		J(",\"ext\":"); jw(p->payload.mwait.ext); J("}");
		return;
	case ppt_pwre:
		J("{\"t\":\"pwre\",\"state\":%u,\"sub_state\":%u,\"hw\":%u}",
		  p->payload.pwre.state, p->payload.pwre.sub_state,
		  p->payload.pwre.hw);
		return;
	case ppt_pwrx:
		J("{\"t\":\"pwrx\",\"last\":%u,\"deepest\":%u,\"int\":%u,"
		  "\"store\":%u,\"auto\":%u}", p->payload.pwrx.last,
		  p->payload.pwrx.deepest, p->payload.pwrx.interrupt,
		  p->payload.pwrx.store, p->payload.pwrx.autonomous);
		return;
	case ppt_ptw:
		J("{\"t\":\"ptw\",\"plc\":%u,\"ip\":%u,\"payload\":",
		  p->payload.ptw.plc, p->payload.ptw.ip);
		jw(p->payload.ptw.payload);
		J("}");
		return;
	case ppt_cfe:
		J("{\"t\":\"cfe\",\"type\":%u,\"vector\":%u,\"ip\":%u}",
		  (unsigned) p->payload.cfe.type, p->payload.cfe.vector,
		  p->payload.cfe.ip);
		return;
	case ppt_evd:
		J("{\"t\":\"evd\",\"type\":%u,\"payload\":",
		  (unsigned) p->payload.evd.type);
		jw(p->payload.evd.payload);
		J("}");
		return;
	case ppt_trig:
		/* The icnt field is only valid if icntv is set. */
		J("{\"t\":\"trig\",\"trbv\":%u,\"icnt\":%u,\"ip\":%u,"
		  "\"icntv\":%u,\"mult\":%u}", p->payload.trig.trbv,
		  p->payload.trig.icntv ? p->payload.trig.icnt : 0,
		  p->payload.trig.ip, p->payload.trig.icntv,
		  p->payload.trig.mult);
		return;
	}
	J("{\"t\":\"?%d\"}", (int) p->type);
}

/* Parse "type field=value ..." (values hex) as printed by the generators. */
static inline int parse_pkt(struct pt_packet *p, char *s)
{
	char *tok, *save = NULL, *eq;
	uint64_t v[16];
	const char *nm[16];
	int n = 0, i;
	char *type = strtok_r(s, " \n", &save);

	memset(p, 0, sizeof(*p));
	if (!type)
		return -1;
	while ((tok = strtok_r(NULL, " \n", &save)) && n < 16) {
		eq = strchr(tok, '=');
		if (!eq)
			return -1;
		*eq = 0;
		nm[n] = tok;
		v[n++] = strtoull(eq + 1, NULL, 16);
	}
#define T(x) (!strcmp(type, x))
#define F(x) ({ uint64_t r_ = 0; for (i = 0; i < n; ++i) \
	if (!strcmp(nm[i], x)) r_ = v[i]; r_; })
	if T("pad") p->type = ppt_pad;
	else if T("psb") p->type = ppt_psb;
	else if T("psbend") p->type = ppt_psbend;
	else if T("stop") p->type = ppt_stop;
	else if T("ovf") p->type = ppt_ovf;
	else if T("invalid") p->type = ppt_invalid;
	else if T("unknown") p->type = ppt_unknown;
	else if T("badtype") p->type = (enum pt_packet_type) 77;
	else if (T("fup") || T("tip") || T("tip_pge") || T("tip_pgd")) {
		p->type = T("fup") ? ppt_fup : T("tip") ? ppt_tip :
			T("tip_pge") ? ppt_tip_pge : ppt_tip_pgd;
		p->payload.ip.ipc = (enum pt_ip_compression) F("ipc");
		p->payload.ip.ip = F("ip");
	} else if (T("tnt_8") || T("tnt_64")) {
		p->type = T("tnt_8") ? ppt_tnt_8 : ppt_tnt_64;
		p->payload.tnt.bit_size = (uint8_t) F("n");
		p->payload.tnt.payload = F("bits");
	} else if T("mode_exec") {
		p->type = ppt_mode;
		p->payload.mode.leaf = pt_mol_exec;
		p->payload.mode.bits.exec.csl = F("csl");
		p->payload.mode.bits.exec.csd = F("csd");
		p->payload.mode.bits.exec.iflag = F("iflag");
	} else if T("mode_tsx") {
		p->type = ppt_mode;
		p->payload.mode.leaf = pt_mol_tsx;
		p->payload.mode.bits.tsx.intx = F("intx");
		p->payload.mode.bits.tsx.abrt = F("abrt");
	} else if T("mode_bad") {
		p->type = ppt_mode;
		p->payload.mode.leaf = (enum pt_mode_leaf) F("leaf");
	} else if T("pip") {
		p->type = ppt_pip;
		p->payload.pip.cr3 = F("cr3");
		p->payload.pip.nr = F("nr");
	} else if T("vmcs") {
		p->type = ppt_vmcs;
		p->payload.vmcs.base = F("base");
	} else if T("cbr") {
		p->type = ppt_cbr;
		p->payload.cbr.ratio = (uint8_t) F("ratio");
	} else if T("tsc") {
		p->type = ppt_tsc;
		p->payload.tsc.tsc = F("tsc");
	} else if T("tma") {
		p->type = ppt_tma;
		p->payload.tma.ctc = (uint16_t) F("ctc");
		p->payload.tma.fc = (uint16_t) F("fc");
	} else if T("mtc") {
		p->type = ppt_mtc;
		p->payload.mtc.ctc = (uint8_t) F("ctc");
	} else if T("cyc") {
		p->type = ppt_cyc;
		p->payload.cyc.value = F("value");
	} else if T("mnt") {
		p->type = ppt_mnt;
		p->payload.mnt.payload = F("payload");
	} else if T("exstop") {
		p->type = ppt_exstop;
		p->payload.exstop.ip = F("ip");
	} else if T("mwait") {
		p->type = ppt_mwait;
		p->payload.mwait.hints = (uint32_t) F("hints");
		p->payload.mwait.ext = (uint32_t) F("ext");
	} else if T("pwre") {
		p->type = ppt_pwre;
		p->payload.pwre.state = (uint8_t) F("state");
		p->payload.pwre.sub_state = (uint8_t) F("sub_state");
		p->payload.pwre.hw = F("hw");
	} else if T("pwrx") {
		p->type = ppt_pwrx;
		p->payload.pwrx.last = (uint8_t) F("last");
		p->payload.pwrx.deepest = (uint8_t) F("deepest");
		p->payload.pwrx.interrupt = F("int");
		p->payload.pwrx.store = F("store");
		p->payload.pwrx.autonomous = F("auto");
	} else if T("ptw") {
		p->type = ppt_ptw;
		p->payload.ptw.payload = F("payload");
		p->payload.ptw.plc = (uint8_t) F("plc");
		p->payload.ptw.ip = F("ip");
	} else if T("cfe") {
		p->type = ppt_cfe;
		p->payload.cfe.type = (enum pt_cfe_type) F("type");
		p->payload.cfe.vector = (uint8_t) F("vector");
		p->payload.cfe.ip = F("ip");
	} else if T("evd") {
		p->type = ppt_evd;
		p->payload.evd.type = (enum pt_evd_type) F("type");
		p->payload.evd.payload = F("payload");
	} else if T("trig") {
		p->type = ppt_trig;
		p->payload.trig.trbv = (uint8_t) F("trbv");
		p->payload.trig.icnt = (uint16_t) F("icnt");
		p->payload.trig.ip = F("ip");
		p->payload.trig.icntv = F("icntv");
		p->payload.trig.mult = F("mult");
	} else
		return -1;
#undef T
#undef F
	return 0;
}
#endif
