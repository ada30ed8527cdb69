#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools import parts
N = {
 "C01": ("runtime monitoring of hostile inputs: panic, abort, stack, hang and overflow detectors; AddressSanitizer in thorough", "panics, aborts, stack overflow, hangs, arithmetic overflow and (thorough) memory errors over mutated, noisy, truncated, nested and real inputs; inputs not generated are not judged"),
 "C02": ("counting allocator as a monitor of heap use", "peak heap while reading against a linear bound, over every field of small classes set to huge values"),
 "C03": ("monitored round trips against an independent decoder", "random and real class files; oracle is a strict decoder and encoder written from the JVM specification"),
 "C04": ("monitored round trips of instructions against an independent decoder", "every instruction with enumerated and boundary operands; oracle is the independent decoder"),
 "C05": ("strict structural validator over everything written", "validator observes every file written from read, built and edited classes"),
 "C06": ("monitored layouts: decoded targets against labels", "branches around every size threshold, chains and switches; oracle decodes the written code independently"),
 "C07": ("boundary workloads with panic and content monitors", "each limit from both sides; a success is decoded and compared"),
 "C08": ("differential monitoring against a reference codec", "all code points, all short byte strings and random strings"),
 "C09": ("model-based monitoring of operation histories, and Miri", "histories of operations against a code-point model; undefined behaviour observed by Miri on a smaller workload"),
 "C10": ("differential monitoring against a reference parser", "enumerated and random descriptors and near-descriptors"),
 "C11": ("differential monitoring against a reference parser", "random signatures and near-signatures"),
 "C12": ("history checker over constant-pool insertions", "recorded histories are checked offline for stability, injectivity and inverse lookup"),
 "C13": ("monitored round trips of bootstrap tables", "random tables and redirections, oracle is the independent decoder"),
 "C14": ("monitored round trips of annotations", "every kind, place, tag and value range; oracle is the independent decoder"),
 "C15": ("monitored round trips of debug information under code insertion", "positions are compared by instruction through the independent decoder"),
 "C16": ("fault injection into readers and writers", "a failure, an end or a full writer at every byte, with a marker error that must come back"),
 "C17": ("ThreadSanitizer, and comparison of recorded results between processes, orders and threads", "digests of two processes in opposite order, concurrent operations on shared classes, race detection"),
 "C18": ("monitored round trips of bit patterns", "boundary and random bit patterns in every place, order and hash laws of the float wrappers"),
 "C19": ("monitored round trips of metadata", "random metadata and unknown attributes, disagreeing lengths"),
 "C20": ("exhaustive monitored runs over flag words and versions", "all 16-bit words in all places, all versions"),
 "C21": ("differential execution on a JVM", "programs before and after rewriting, compared by everything they print and return"),
 "C22": ("monitored enumeration of method handles against the documented rules", "every kind, member kind and kind of name"),
 "C23": ("differential monitoring of frame encodings", "every tag with boundary and random operands against a reference codec"),
 "C24": ("model-based monitoring of edit histories", "a reference class edited in step with the library's, compared after each writing"),
 "C25": ("monitored comparisons of generated twins", "equality, inequality, hash and clone of values whose content is known to be the same or different"),
}
checks = [dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json", technique=N[i][0], level=parts.PARTS[i]["level"], level_note=N[i][1]) for i in sorted(parts.PARTS)]
m = dict(version=1, setup_cmd="cd harness && cargo build --offline --release -q", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
