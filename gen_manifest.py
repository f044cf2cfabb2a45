#!/usr/bin/env python3
"""Writes MANIFEST.json.  CHECKS lists the claimed properties."""
import json, os

D = os.path.dirname(os.path.abspath(__file__))

TV = "TLA+ specification, TLC trace validation of the real code"
GEN = "TLA+ specification, TLC behaviours replayed into the real code"
CHECKS = {
    "C01": (TV + " (spec/Packets.tla)", "exploration",
            "Every recorded encode/decode round trip of the real encoder and "
            "decoder is judged by TLC against Packets.tla; all packet types, "
            "boundary and random payloads, every room size. Trusts the "
            "packet layouts as transcribed."),
    "C02": (TV + " (spec/Packets.tla)", "exploration",
            "Every recorded decode of the real packet decoder is judged by "
            "TLC against Packets.tla; all opcodes with all truncations, "
            "payloads sampled, under AddressSanitizer."),
    "C03": (TV + " (spec/Packets.tla, Sync.tla, DecTrace.tla)", "exploration",
            "Synchronization histories of the packet, event and query "
            "decoder are judged by TLC against Sync.tla; truncations, "
            "corrupt and repeated PSB+, all directions and targets."),
    "C04": (TV + " (spec/EventDecoder.tla, DecTrace.tla)", "exploration",
            "Traces with every IP compression at every packet that carries "
            "an IP, judged against EventDecoder.tla and the addresses the "
            "generator meant."),
    "C05": (TV + " (spec/EventDecoder.tla, DecTrace.tla)", "exploration",
            "Recorded histories of the event decoder judged by TLC, every "
            "returned event field, status and position; generated legal and "
            "corrupted traces of all packet types."),
    "C06": (TV + " (spec/QueryDecoder.tla, DecTrace.tla)", "exploration",
            "Recorded histories of arbitrary query, event, cond/indirect "
            "calls judged by TLC against QueryDecoder.tla."),
    "C07": (GEN + " (spec/Processor.tla)", "exploration",
            "Random executions of random programs on the processor model; "
            "the instructions, classes, modes, raw bytes and events of the "
            "instruction flow decoder have to be those of the execution; "
            "wrong traces and missing memory have to be reported where they "
            "matter."),
    "C08": (GEN + " (spec/Processor.tla)", "exploration",
            "The same executions, and long runs without a branch, through "
            "the block decoder under every block configuration, image "
            "layout and cache size."),
    "C09": (GEN + " (spec/Processor.tla)", "exploration",
            "Call and return patterns beyond the depth of the return stack, "
            "with and without return compression, in both flow decoders."),
    "C12": (TV + " (spec/Image.tla, ImageTrace.tla, ImageMC.tla)",
            "exploration",
            "Random histories of image operations, with overlaps, wildcards, "
            "failing allocations and mappings, judged by TLC against "
            "Image.tla, whose meaning TLC checks for all short histories."),
    "C13": (TV + " (spec/Image.tla, ImageTrace.tla)", "exploration",
            "Random histories of section cache operations, with decoders "
            "holding sections, block caches, limits and failures; "
            "identifiers, contents, memory kept and everything released."),
    "C14": ("model-based: linearizability against a TLA+ specification of "
            "histories recorded under controlled schedules "
            "(spec/ImageOps.tla, LinTrace.tla)", "exploration",
            "Threads sharing section caches, one running at a time: all "
            "schedules up to a preemption bound at lock operations and at "
            "shared memory accesses, and random ones; every history must be "
            "linearizable and release everything."),
    "C15": (TV + " (spec/SbSession.tla, SbTrace.tla)", "exploration",
            "Sideband sessions over scripted decoders that return, report "
            "and fail in every way their interface allows; the session's "
            "calls judged by TLC against SbSession.tla."),
    "C16": (TV + " (spec/SbPevent.tla, Pevent.tla, Image.tla, "
            "SbPevTrace.tla)", "exploration",
            "Generated perf event channels and trace events go through the "
            "sideband library; the image that is chosen and what it contains, "
            "the notifications and the memory kept are judged by TLC, which "
            "decodes the channels' bytes itself."),
    "C17": (TV + " (spec/Pevent.tla, PeventTrace.tla, PeventMC.tla)",
            "exploration",
            "Writes and reads of perf event records, of all types with all "
            "sets of samples, truncated and damaged, and time conversions, "
            "judged by TLC against the documented layout and formula."),
    "C18": (TV + " (spec/Ild.tla, IldTrace.tla, IldMC.tla)", "exploration",
            "Instructions of all opcode maps under all prefixes and "
            "addressing forms, with every number of available bytes, read "
            "at once or in pieces from an image; length, class, properties "
            "and displacement judged by TLC against the instruction formats; "
            "the formats are model-checked to be prefix free."),
    "C24": (TV + " (spec/PtDump.tla, PtDumpTrace.tla, PtSeg.tla)",
            "exploration",
            "Runs of the real ptdump on generated and corrupted traces under "
            "random combinations of its options; TLC explains every line of "
            "the output, including reported problems, by PtDump.tla. Runs of "
            "ptseg for every offset of generated traces; faulty command "
            "lines."),
    "C25": (TV + " (spec/Pttc.tla, PttcTrace.tla)", "exploration",
            "Runs of the real pttc on generated annotated assembly files "
            "with all packet and sideband directives, labels, sections, "
            "macros, expectations and faults, and on faulty command lines; "
            "TLC assembles and compiles the same source by Pttc.tla and "
            "compares trace, sideband, expectations, names and the lines "
            "that messages are about."),
    "C19": (GEN + " (spec/Processor.tla)", "exploration",
            "Executions with many PSBs, decoded from each of them in any "
            "order, in parts, and after errors, by one decoder object."),
    "C21": (GEN + " (spec/Processor.tla)", "exploration",
            "Executions in several address spaces whose contents differ; "
            "images that know all of them, or changed by the user."),
    "C23": (GEN + " (spec/Processor.tla)", "exploration",
            "Executions dense in events, several at one instruction; order, "
            "contents and position of each, and tick events."),
    "C10": (TV + " (spec/TimeCal.tla, DecTrace.tla)", "exploration",
            "Traces dense in timing packets, both from a clock model and "
            "arbitrary; every reported time, lost-packet count and core "
            "ratio is judged by TLC against TimeCal.tla."),
    "C11": (TV + " (spec/EventDecoder.tla, Config.tla, DecTrace.tla)",
            "exploration",
            "The errata of every model of the known families; traces with "
            "each defect and near misses under every combination of flags; "
            "executions of Processor.tla with the errata that are worked "
            "around in the flow decoders."),
    "C20": (TV + " (spec/DecTrace.tla, DecodeLoop.tla, LoopTrace.tla)",
            "exploration",
            "Documented decode loops over junk, truncated and corrupt "
            "traces, judged by TLC: documented statuses, positions inside "
            "the buffer, end of stream at the end. Hangs are found by a "
            "time limit."),
    "C22": (TV + " (spec/Config.tla, DecTrace.tla)", "exploration",
            "Every declared structure size for every decoder and the "
            "encoder, filters and cpu strings against Config.tla; decode "
            "histories under partial structures against DecTrace.tla."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
    ids = [p["id"] for p in props]
    checks, na = [], []
    for i in ids:
        if i in CHECKS and os.path.exists(
                os.path.join(D, "checks", i.lower() + ".py")):
            t, lv, note = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "bin/check " + i,
                           "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                           "technique": t, "level": lv, "level_note": note})
        else:
            na.append({"property": i, "reason": NA.get(
                i, "No check built yet; planned in DESIGN.md.")})
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
         "not_applicable": na}
    with open(os.path.join(D, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = {}

if __name__ == "__main__":
    main()
