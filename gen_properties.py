#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

L = "libipt/src/"
p("C01", "Encoded packets decode back to themselves",
  "For every packet of every type with representable field values, encoding it succeeds with exactly the size of that packet and writes only that many bytes, and decoding those bytes yields a packet with the same type, the same size and the same payload fields (bits that the packet cannot carry are dropped, nothing else). If the packet is not encodable or does not fit into the remaining buffer, the encoder returns an error, does not move and leaves the buffer untouched.",
  ["inputs", "histories"], "every packet value, every remaining buffer size, every sequence of packets written back to back",
  "ptunit-packet round-trips one or two hand-picked values per packet type; field boundaries, remaining-space boundaries and sequences are not enumerated.",
  [L+"pt_encoder.c", L+"pt_packet.c", L+"pt_packet_decoder.c", "libipt/internal/include/pt_opcodes.h"],
  [("per-type encode with space reservation", "pt_encoder.c: pt_enc_next, pt_reserve"), ("per-type decode", "pt_packet.c: pt_pkt_read_*")],
  obs=["pt_enc_next", "pt_enc_get_offset", "pt_pkt_next", "trace buffer bytes"])
p("C02", "Packet decoding of arbitrary bytes is exact, bounded and error-stable",
  "For every trace buffer and every position in it, the packet decoder returns exactly the packet that the bytes from that position to the end of the buffer encode and advances by exactly that packet's size; it never lets bytes outside the buffer influence the result. Truncated packets are reported as end of stream, unknown opcodes and malformed payloads by their documented errors, and on any error the decoder stays at the position of the offending packet.",
  ["inputs"], "every byte sequence, every position, every truncation point, with and without an unknown-packet callback",
  "Unit tests decode what the encoder produced and cut it at one point; malformed payloads and reserved encodings are sampled once each.",
  [L+"pt_packet_decoder.c", L+"pt_packet.c", "libipt/internal/include/pt_opcodes.h"],
  [("opcode dispatch", "pt_packet_decoder.c: pt_pkt_next"), ("end-of-buffer checks", "pt_packet.c: pt_pkt_read_*")],
  obs=["pt_pkt_next", "pt_pkt_get_offset"])
p("C03", "Synchronization visits every sync point exactly once, in order",
  "Starting unsynchronized, repeated forward synchronization visits all synchronization points of a trace in ascending order, each exactly once, and then reports end of stream; repeated backward synchronization visits them in descending order, each exactly once. Synchronizing to an explicit offset succeeds only for an offset inside the buffer at which there is a synchronization point, and a failed synchronization never reports success at a position that is none.",
  ["inputs", "histories"], "every buffer contents, buffer alignment and size, every interleaving of forward, backward and explicit synchronization and decoding",
  "ptunit-sync places one PSB in a fixed buffer; several PSBs, alignments, partial patterns, pattern runs and mixed navigation are not covered.",
  [L+"pt_sync.c", L+"pt_packet_decoder.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c"],
  [("PSB pattern search", "pt_sync.c: pt_sync_forward, pt_sync_backward, pt_find_psb"), ("search start position", "pt_packet_decoder.c: pt_pkt_sync_forward/backward")],
  obs=["pt_pkt_sync_*", "pt_evt_sync_*", "pt_qry_sync_*", "pt_*_get_sync_offset", "pt_*_get_offset"])
p("C04", "Compressed instruction pointers are reconstructed exactly",
  "Whatever sequence of IP packets a trace contains, with any mix of compression modes, the address reported for each of them is the full 64-bit address that the producer compressed against the most recently produced address. A suppressed address is reported as suppressed and leaves the reference address usable for later packets; a synchronization point resets the reference address so that decoding never depends on packets before it.",
  ["inputs", "histories"], "every sequence of IP-carrying packets and compression modes across enable, disable, overflow and sync points",
  "ptunit-last_ip checks single updates from a fresh state; sequences and their interaction with the packets that carry them are only sampled.",
  [L+"pt_last_ip.c", L+"pt_event_decoder.c", L+"pt_packet.c"],
  [("last-ip update", "pt_last_ip.c: pt_last_ip_update_ip"), ("reset on PSB", "pt_event_decoder.c")],
  obs=["pt_evt_next", "pt_qry_indirect_branch"])
p("C05", "Events are decoded completely, in order, and bound to the right packet",
  "For every sequence of packets, the event decoder delivers exactly the events that the sequence encodes: each event once, in trace order, with the payload, address, status-update flag and suppression flag given by its packets and the packet it binds to. A sequence that is not legal trace is reported by an error at the offending packet and never silently decoded into other events.",
  ["inputs", "histories"], "every sequence of packets after a sync point, legal or not, every configuration flag",
  "ptunit-query and the ptdump tests contain a few hundred fixed packet sequences; combinations of pending bindings, header packets, disabled/enabled tracing and errors are not enumerated.",
  [L+"pt_event_decoder.c", L+"pt_event_queue.c"],
  [("pending event queue by binding", "pt_event_queue.c"), ("packet state machine", "pt_event_decoder.c: pt_evt_next")],
  obs=["pt_evt_sync_forward", "pt_evt_next", "pt_evt_get_offset"])
p("C06", "Branch queries answer in trace order and events are announced first",
  "Over any history of query calls, the taken/not-taken indicators and branch destinations returned are exactly those in the trace, in trace order, each handed out once; pending events are announced ahead of the query they precede and must be fetched before it. The status of every call says correctly whether an event is pending, whether the address is suppressed and whether the trace has ended, and a query that does not match the trace is refused with the documented error without consuming anything.",
  ["inputs", "histories"], "every trace and every sequence of query calls, including mismatching queries and queries after errors and at the end",
  "ptunit-query issues fixed call sequences on traces with one or two packets.",
  [L+"pt_query_decoder.c", L+"pt_event_decoder.c", L+"pt_tnt_cache.c"],
  [("one-event look-ahead", "pt_query_decoder.c"), ("TNT cache", "pt_tnt_cache.c")],
  obs=["pt_qry_cond_branch", "pt_qry_indirect_branch", "pt_qry_event", "pt_qry_sync_*"])
p("C07", "Instruction flow equals the executed program",
  "If a trace was produced by executing a program, then decoding it with the program's memory image yields exactly the executed instructions in execution order, each once, with address, size, raw bytes, class, mode and speculation state, for every mix of direct, conditional and indirect branches, calls and returns, far transfers, interrupts and other asynchronous branches, tracing being enabled and disabled, transactions and overflows. Missing memory or trace that contradicts the image is reported as an error; instructions that were not executed are never reported as executed without one.",
  ["programs", "inputs", "histories"], "every program and every execution of it, every legal way the processor may packetize that execution",
  "In the test build no instruction trace is decoded at all (the instruction decoder's unit tests only check NULL arguments and set-up).",
  [L+"pt_insn_decoder.c", L+"pt_insn.c", L+"pt_retstack.c", L+"pt_event_decoder.c"],
  [("proceed / event check loop", "pt_insn_decoder.c: pt_insn_next, pt_insn_proceed, pt_insn_check_*")],
  obs=["pt_insn_next", "pt_insn_event", "pt_insn_sync_forward"])
p("C08", "Block flow equals instruction flow under every block configuration",
  "For every trace and image, expanding the blocks delivered by the block decoder instruction by instruction gives the same sequence of instructions and events as the instruction flow decoder, with every event delivered at the same point between two instructions. This does not depend on the block-ending options, on whether sections come from a section cache, on the cache limit, or on whether the same code was decoded before.",
  ["programs", "inputs", "configurations", "histories"], "every program, execution and trace; every combination of end-on-call, end-on-jump, cached and uncached sections, section boundaries inside blocks and instructions",
  "In the test build no block trace is decoded at all (the block decoder's unit tests only check NULL arguments and set-up).",
  [L+"pt_block_decoder.c", L+"pt_block_cache.c", L+"pt_msec_cache.c", L+"pt_insn.c"],
  [("block cache", "pt_block_decoder.c: pt_blk_proceed_no_event_cached"), ("block walk", "pt_block_decoder.c: pt_blk_proceed_no_event_uncached")],
  obs=["pt_blk_next", "pt_blk_event"])
p("C09", "Compressed returns go to the address after the matching call",
  "A compressed return is decoded to the instruction following the most recent call that has not been returned from, for call depths up to the architectural limit of 64, with the oldest entries forgotten beyond it. Calls that do not push a return address for this purpose do not disturb it, the stack does not survive a synchronization point, and a compressed return without a matching call or indicated by a not-taken bit is an error.",
  ["programs", "histories"], "every nesting of calls and returns, including depths around and beyond the limit, call-to-next, returns compressed or not, and tracing gaps",
  "ptunit-retstack exercises the stack in isolation; its use by the decoders is not tested.",
  [L+"pt_retstack.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c"],
  [("return stack", "pt_retstack.c"), ("push on call / pop on compressed return", "pt_insn_decoder.c, pt_block_decoder.c")],
  obs=["pt_insn_next", "pt_blk_next"])
p("C10", "Time is what the timing packets say",
  "At every point of every trace, the reported time, lost-packet counts and core:bus ratio are the function of the timing packets up to that point and of the configured frequencies that the architecture defines: the last time stamp, advanced by MTC periods since and by calibrated cycles since the last of those. Time is reported as unavailable until a time stamp was seen, and packets that cannot be used for lack of calibration or configuration are counted as lost.",
  ["inputs", "histories", "configurations"], "every sequence of TSC, TMA, MTC, CYC and CBR packets inside and outside PSB headers, wrap-arounds, overflows, every frequency configuration",
  "ptunit-time checks single steps from a fresh state; wrap-around, calibration and loss over sequences are not covered.",
  [L+"pt_time.c", L+"pt_event_decoder.c"],
  [("time estimation", "pt_time.c: pt_time_update_*"), ("calibration", "pt_time.c: pt_tcal_*")],
  obs=["pt_qry_time", "pt_qry_core_bus_ratio", "pt_event.tsc/lost_mtc/lost_cyc"])
p("C11", "Errata workarounds apply exactly where they should",
  "With the erratum flag for a known processor defect set, traces with that defect decode to the events of the actual execution; without it, and for defect-free traces regardless of the flag, decoding is not changed by the workaround's existence. The set of errata derived from a processor identification contains exactly those documented for that processor.",
  ["inputs", "configurations"], "every cpu identifier, every combination of errata flags, every defect-carrying and defect-free packet sequence",
  "One or two fixed traces per erratum; flags in combination and near-miss sequences are not covered.",
  [L+"pt_event_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_config.c"],
  [("erratum checks", "pt_event_decoder.c: pt_evt_check_bdm70, handle_skd007, skd010, apl12, apl11"), ("cpu table", "pt_config.c: pt_cpu_errata")],
  obs=["pt_cpu_errata", "pt_evt_next", "pt_insn_next", "pt_blk_next"])
p("C12", "A memory image reads like the most recent mapping at every address",
  "After any history of adding files, cached sections, copying images and removing sections, reading memory in an address space returns, byte for byte, the contents of the section that is mapped there, or the read callback's answer if there is none. Adding a section replaces, at its addresses, all sections whose address space matches its own (parts of an address space that are not specified match everything); what is left of them keeps its contents, also in copies of the image, and what was replaced or removed does not reappear. A read stops at the end of the mapping that contains its start and reports an unmapped address as such.",
  ["histories", "inputs"], "every sequence of add, add_cached, copy, remove_by_filename, remove_by_asid, set_callback and read operations with arbitrary overlaps and address spaces",
  "ptunit-image covers chosen overlap cases of two or three sections; histories are not enumerated.",
  [L+"pt_image.c", L+"pt_section.c", L+"pt_section_file.c", L+"posix/pt_section_posix.c", L+"pt_mapped_section", L+"pt_asid.c", L+"pt_msec_cache.c"],
  [("overlap resolution", "pt_image.c: pt_image_add"), ("lookup", "pt_image.c: pt_image_find, pt_image_read")],
  obs=["pt_image_add_file", "pt_image_add_cached", "pt_image_copy", "pt_image_remove_by_*", "instruction/block decode through the image"])
p("C13", "The section cache identifies, returns and limits sections faithfully",
  "Identical requests (same file, offset, size and load address) get the same identifier for the lifetime of the cache and different requests get different identifiers; reading through an identifier always returns that section's file contents at the requested address, truncated at the section end. Neither the limit, nor the order of additions and reads, nor eviction changes any result, and memory kept mapped beyond active use stays within the configured limit.",
  ["histories", "configurations"], "every history of add, read, set_limit and map/unmap over several files and sections",
  "ptunit-image_section_cache exercises short fixed histories with stubbed sections.",
  [L+"pt_image_section_cache.c", L+"pt_section.c", L+"pt_section_file.c", L+"posix/pt_section_posix.c"],
  [("lookup by section", "pt_image_section_cache.c: pt_iscache_add, isect_find"), ("LRU", "pt_image_section_cache.c: pt_iscache_notify_map/resize, lru_*")],
  obs=["pt_iscache_add_file", "pt_iscache_read", "pt_iscache_set_limit", "mapped memory of the process"])
p("C14", "Shared section caches are safe under every thread schedule",
  "When several threads concurrently add, read and decode through one section cache, every operation behaves as if it happened alone at some point between its call and its return; no schedule leads to deadlock, to use of unmapped or freed memory, to a leak, or to two identifiers for one section. When all users are gone everything has been released exactly once.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of threads at every shared access, with allocation or mapping failures",
  "The threaded unit tests run a fixed workload under whatever schedule the kernel happens to produce.",
  [L+"pt_image_section_cache.c", L+"pt_section.c", L+"posix/pt_section_posix.c", L+"pt_section_file.c"],
  [("lock order section -> cache, attach lock", "pt_section.c: pt_section_lock, pt_section_lock_attach; pt_image_section_cache.c: pt_iscache_lock"), ("reference counts", "pt_section.c: ucount, acount, mcount")],
  obs=["pt_iscache_*", "pt_image_*", "lock and allocation calls"])
p("C15", "Sideband records are applied in time order, each exactly once",
  "Over any set of sideband decoders in a session and any sequence of trace events, every sideband record is applied exactly once and not before the first event whose time reaches the record's time; records of different decoders are applied in time order. A decoder that fails is dropped and destroyed exactly once without affecting the others, and only primary decoders may change the image of the trace decoder.",
  ["histories", "inputs", "fault_sequences"], "every set of decoders, record times (including ties), event sequences with and without time, failures in any callback",
  "libipt-sb has no unit tests; it is exercised only through a handful of ptdump runs with one channel.",
  ["sideband/src/pt_sb_session.c"],
  [("sorted decoder list", "pt_sb_session.c: pt_sb_add_decoder, pt_sb_event, pt_sb_dump")],
  obs=["pt_sb_event", "pt_sb_dump", "pt_sb_init_decoders", "decoder callbacks"])
p("C16", "Trace is decoded with the memory image of the running process",
  "For every perf sideband stream, at every trace event the selected memory image is that of the process that was running on the traced cpu at that time, and it contains exactly the kernel mappings plus the file mappings made in that process so far: a fork inherits the parent's mappings, an exec starts afresh, an exit ends the process without invalidating an image in use. Errors and lost records are reported through the notifier.",
  ["histories", "inputs"], "every history of mmap, fork, exec, exit, switch, itrace-start and lost records, primary and secondary channels, and every interleaving with trace events",
  "Twelve fixed ptdump runs check the printed records; the resulting images are never inspected.",
  ["sideband/src/pt_sb_pevent.c", "sideband/src/pt_sb_context.c", "sideband/src/pt_sb_session.c"],
  [("record application", "pt_sb_pevent.c: pt_sb_pevent_apply_record"), ("contexts by pid", "pt_sb_session.c, pt_sb_context.c")],
  obs=["pt_sb_event", "pt_sb_ctx_image", "image reads", "notifiers"])
p("C17", "Perf event records survive write and read, and times convert both ways",
  "Every supported perf event record with every combination of sample fields that is written to a buffer is read back with identical header, body and samples, consuming exactly the bytes written; a truncated or oversized record is refused without reading beyond the buffer. Conversion between perf time and time stamp counts follows the published formula and inverts up to its rounding.",
  ["inputs"], "every record type, sample type combination, string length, truncation point, and 64-bit time with every shift and multiplier",
  "ptunit-pevent round-trips fixed values; truncation and sample combinations are sampled.",
  ["pevent/src/pevent.c"], [("read/write", "pevent.c: pev_read, pev_write"), ("time", "pevent.c: pev_time_to_tsc, pev_time_from_tsc")],
  obs=["pev_read", "pev_write", "pev_time_*"])
p("C18", "Instruction length and class are decoded as the architecture defines",
  "For every byte sequence and execution mode, the decoder determines the length and the control-flow class (other, call, return, jump, conditional jump, far variants, ptwrite, indirect) of the instruction at its beginning as the architecture defines, including its branch displacement. It never uses bytes beyond those available and rejects sequences that are no instruction of at most 15 bytes.",
  ["inputs"], "every opcode, prefix combination, ModRM/SIB form, mode and number of available bytes",
  "ptunit-ild checks 69 hand-assembled instructions.",
  [L+"pt_ild.c", "libipt/internal/include/pti-*.h", L+"pt_insn.c"],
  [("length decoder tables and scanners", "pt_ild.c"), ("classification", "pt_ild.c: pt_instruction_decode")],
  obs=["pt_insn_next", "pt_ild_decode"])
p("C19", "Decoding from any sync point gives the rest of the same flow",
  "Decoding that starts at any synchronization point of a trace gives exactly the flow of instructions and events, from that point on, that a decode started at an earlier synchronization point gives after reaching it; splitting a trace at its synchronization points and decoding the parts independently reconstructs the whole execution. Resynchronizing after an error or in the middle of decode leaves no trace of what was decoded before.",
  ["inputs", "histories"], "every trace, every subset of its sync points, every history of decoding and resynchronizing one decoder object",
  "Tests decode every trace once from its first sync point.",
  [L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c"],
  [("reset on synchronization", "pt_evt_reset, pt_qry_reset, pt_insn_reset, pt_blk_reset"), ("PSB+ status updates", "pt_event_decoder.c")],
  obs=["pt_*_sync_forward/backward/set", "pt_insn_next", "pt_blk_next", "pt_evt_next"])
p("C20", "Every decode loop makes progress and ends",
  "For every trace buffer, image and configuration, each decoder call returns, and the documented decode loop (decode until error, resynchronize forward, stop at end of stream) ends after a number of calls bounded by the trace and the executed code. At the end of the trace every layer answers end of stream, and the packet, event and query decoder keep doing so; before a synchronization and after a lost one they say so, and the position they report never lies outside the buffer.",
  ["inputs", "histories", "configurations"], "every byte sequence as trace, every image, every decoder layer",
  "Tests feed legal traces with a single deliberate error and stop at the first error.",
  [L+"pt_packet_decoder.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c"],
  [("errors kept until resync", "decoder->status in each layer")],
  obs=["return values and offsets of all decoder calls"])
p("C21", "Instructions are fetched from the address space in force",
  "Each instruction is read from the address space (paging base and virtual-machine control structure) that the trace says was in force when it executed: address-space changes in the trace take effect at the instruction they belong to, neither earlier nor later, and the decoder reports that address space when asked. A change of image made by the user between instructions takes effect for the next instruction read.",
  ["programs", "histories", "inputs"], "every execution that changes CR3/VMCS synchronously or asynchronously, sections mapped differently per address space, image switches at any event",
  "No test decodes instructions across an address space change.",
  [L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_asid.c", L+"pt_image.c", L+"pt_msec_cache.c"],
  [("asid update on paging/vmcs events", "pt_insn_decoder.c/pt_block_decoder.c: pt_insn_process_paging/vmcs"), ("section cache invalidation", "pt_msec_cache.c")],
  obs=["pt_insn_next", "pt_blk_next", "pt_insn_asid", "pt_blk_asid"])
p("C22", "Configuration is taken over completely, privately and compatibly",
  "A decoder or encoder works on its own copy of the configuration: every field the caller's structure contains takes effect, fields beyond the caller's declared size behave as zero, and fields the library does not know are ignored. Inconsistent configurations (no or reversed buffer, too small a structure) are refused, and the configuration handed back equals the one in force (the event, query, instruction and block decoder hand back their packet decoder's, which has no flags).",
  ["inputs", "configurations"], "every declared structure size, every field value, every decoder kind",
  "ptunit-config compares a few sizes for one helper; what decoders do with the result is not covered.",
  [L+"pt_config.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_encoder.c"],
  [("sized copy", "pt_config.c: pt_config_from_user"), ("flag translation between layers", "pt_*_init_*_flags")],
  obs=["pt_*_alloc_*", "pt_*_get_config"])
p("C23", "Events reach the user at the instruction they belong to",
  "In instruction and block flow, every event of the trace is delivered exactly once and in trace order, immediately before the instruction at whose address it takes effect (or after the instruction that caused it), and asynchronous events never before all instructions executed before them. This includes enabling, disabling, paging, mode, transaction, ptwrite, power, interrupt-flag and trigger events, tick events when requested, and several events at one instruction.",
  ["programs", "histories", "inputs"], "every execution with any combination of events at any instruction",
  "No instruction or block flow with events is decoded by the tests.",
  [L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_event_decoder.c"],
  [("event applicability checks", "pt_insn_decoder.c: pt_insn_check_ip_event, pt_insn_check_insn_event; pt_block_decoder.c: pt_blk_proceed_event")],
  obs=["pt_insn_event", "pt_blk_event", "order relative to pt_insn_next / pt_blk_next"])
p("C24", "The packet dumper shows exactly the packets of the trace",
  "Dumping a trace prints one line per packet with its offset, type and payload as encoded, in order and without omission, and when asked the reconstructed address and time at that packet; dumping never changes with the options that only select what is shown in addition. The segment finder reports for a given offset exactly the synchronization points that enclose it.",
  ["inputs", "configurations"], "every trace and every combination of output options",
  "446 ptdump tests compare fixed traces with default or few options; the segment finder has no tests.",
  ["ptdump/src/ptdump.c", "ptseg/src/ptseg.c"],
  [("packet printing and tracking", "ptdump.c: dump_packets, print_packet"), ("segment search", "ptseg.c")],
  obs=["standard output and exit status of ptdump and ptseg"])
p("C25", "Compiled trace tests mean what they say",
  "The trace test compiler encodes the packet directives of a test, in order, into exactly the packets they name with the operands they give, resolves label and expression operands to the addresses the assembler assigned, and writes as expectation exactly the given lines with offsets and labels substituted. A faulty directive is reported with its line and produces no output that could pass as a result.",
  ["programs", "inputs"], "every sequence of directives and operands",
  "The existing tests are themselves compiled by it, so an error that affects trace and expectation alike goes unnoticed.",
  ["pttc/src/parse.c", "pttc/src/yasm.c", "pttc/src/file.c", "pttc/src/util.c"],
  [("directive processing", "parse.c: p_process_pt"), ("label resolution", "yasm.c")],
  obs=["generated .pt and .exp files", "exit status"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
