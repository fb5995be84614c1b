#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and properties.jsonl."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX, FE = "exploration", "fault_enumeration"

# id: (technique, level, note)
C = {
 "C01": ("stateful property-based testing against a byte-vector model", EX,
         "Generated operation sequences over sink and image compared with a plain byte vector after every step."),
 "C02": ("stateful property-based testing over interleaved handles, plus parallel threads", EX,
         "Interleavings are generated step by step; thread schedules are those the OS gives."),
 "C03": ("property-based testing with scripted sources", EX,
         "Differential against the bytes the source delivered."),
 "C04": ("property-based testing with metered sources and heap accounting", EX,
         "If-and-only-if on the limit, with consumption and heap bounds measured."),
 "C05": ("property-based testing with file operation monitoring", EX,
         "Opened paths, directory entries, descriptors and peak heap are observed through libc interposition and a counting allocator."),
 "C06": ("property-based testing with generated fault injection", FE,
         "Fault positions are drawn over all file operations of a fault-free run of the same program."),
 "C07": ("model-based property testing of builders", EX,
         "Every builder call mirrored in a model and compared."),
 "C08": ("property-based round-trip testing", EX,
         "Records in all body states, strategies and tunables, compared field by field on each of several reads."),
 "C09": ("differential property-based testing against an independent codec", EX,
         "Encoder and strict parser written from the format documentation, in both directions."),
 "C10": ("property-based testing with a reader run at every writer step", FE,
         "All file operation boundaries of each generated write are visited, not a sample."),
 "C11": ("property-based testing of concurrent sessions with generated pauses", EX,
         "Thread schedules are those the OS gives, perturbed before file operations."),
 "C12": ("structure-aware mutation fuzzing with heap and termination monitoring", EX,
         "Mutations of valid archives, generated heads and raw bytes; truncations compared with the originals."),
 "C13": ("property-based testing against a re-implementation of the rule", EX,
         "Thresholds are placed at the computed edge; content types have known answers."),
 "C14": ("property-based round-trip testing with metadata corruption", EX,
         "All conversions compared with the generated parts, each corruption with its named error."),
 "C15": ("property-based testing with generated fault injection", FE,
         "Fault positions are drawn over all file operations of a fault-free run of the same write."),
 "C16": ("stateful property-based testing of readers, writers and bodies", EX,
         "Histories of appends, reads, seeks and reopens compared with a list model."),
 "C17": ("property-based testing of streams under generated poll schedules", EX,
         "Every wrapper and buffer type polled by hand, with waker identity and wake-ups checked at each pending result."),
 "C18": ("property-based testing of sinks against a byte-vector model", EX,
         "Every wrapper and buffer type, items placed at the RAM and body limits."),
 "C19": ("property-based testing with file operation monitoring", EX,
         "Each file operation is checked where it happens for a held permit or a pool thread."),
 "C20": ("property-based testing with generated fault injection and cancellation", FE,
         "Fault positions are drawn over all file operations of a fault-free run; semaphore and pool events at generated steps."),
 "C21": ("property-based round-trip testing with damaged encodings", EX,
         "Content encoded by independent encoder calls, then cut, altered, or put over the limit."),
 "C22": ("property-based testing against a re-implementation of the rule", EX,
         "Header lines built from tokens whose meaning is known."),
 "C23": ("stateful property-based testing against a byte-vector model", EX,
         "All buffer forms under generated advances, splits, copies and conversions."),
 "C24": ("differential property-based testing against the http crate's builder", EX,
         "Same builder calls made twice; the request body is polled to its end."),
 "C25": ("property-based testing of the client against a scripted loopback server", EX,
         "Plain HTTP/1.x only; TLS is replaced by a stand-in as no usable OpenSSL is available here."),
 "C26": ("property-based testing of concurrent transfers on runtimes", EX,
         "Thread schedules are those the runtimes and the OS give; completion is judged by a time limit, confirmed alone."),
 "C27": ("property-based testing of the built tool against an independent archive encoder", EX,
         "The tool runs as a process; its output is parsed and compared with the generated records."),
 "C28": ("property-based testing of the built tool against an independent codec", EX,
         "The tool runs as a process; every file it could touch is compared before and after."),
 "C29": ("property-based testing of the built tool with generated faults", FE,
         "Damaged archives, unusable files, bad options, limited or closed output at generated points."),
 "C31": ("property-based testing of the built tool against a scripted loopback server", FE,
         "Exchange scripts, flags and failures are generated; the archive is compared with what the server saw and sent."),
 "C32": ("property-based testing of the logger in processes of its own", EX,
         "Every case is one process; its standard error is compared with a filter model."),
 "C33": ("property-based testing of a build without optional features", EX,
         "The generators and oracles of other checks, run against libraries and tool built without features."),
 "C30": ("property-based testing with generated fault injection", FE,
         "Fault positions are drawn over all file operations of a fault-free read of the same archive."),
}

def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in C:
            t, l, n = C[i]
            checks.append({
                "property": i,
                "quick_cmd": "bash run.sh %s" % i,
                "thorough_cmd": "bash run.sh %s" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": t, "level": l, "level_note": n,
            })
        else:
            na.append({"property": i, "reason": "Applicable, but its check is not built yet."})
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks are generated-input search (property-based testing, fuzzing) with explicit oracles; see DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
