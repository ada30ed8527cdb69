"""What each property's check runs."""
import os
from tools import jvm
ASSUME = ["the reference decoder, encoder and text codecs in /verif/harness (written from the JVM specification) are right", "executions not generated are not judged"]

def native(files=None, **kw):
    """files: (quick, thorough) numbers of real class files to go through as well"""
    def f(run, d):
        b = d.build(run)
        x = []
        if files: x = ["--corpus", d.corpus(run, files[run.thorough])]
        d.workers(run, b, extra=x, **kw)
    return f

def det(run, d):
    """The same cases forwards in 8 processes and backwards in 5, disturbed; then threads under ThreadSanitizer."""
    b = d.build(run)
    x = ["--corpus", d.corpus(run, (600, 20000)[run.thorough])]
    dig = {}
    for part, sh in (("", 8), ("rev", 5)):
        d.workers(run, b, part=part, extra=x, shards=sh, digests=True, env={"LANG": "C"} if part else None)
        dig[part] = dict(l.split() for i in range(sh) for p in [os.path.join(run.work, f"native{part}{i}.digest")] if os.path.exists(p) for l in open(p))
    both = set(dig[""]) & set(dig["rev"])
    run.stats["results_compared_between_processes"] = len(both)
    for k in sorted(k for k in both if dig[""][k] != dig["rev"][k])[:5]:
        run.viol.append((f"digest {k}", f"two processes, given the same cases in opposite order, came to different bytes for {k} (r<n>: case repeated/<n>, f<n>: real classes/<n>)", [b, run.pid, "--seed", str(run.seed), "--tier", run.tier, "--case", ("repeated/" if k[0] == "r" else "real classes/" if k[0] == "f" else "texts/") + k[1:].split("/")[0]]))
    t = d.build(run, "tsan")
    d.workers(run, t, kind="tsan", part="tsan", env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 history_size=4"})

def robust(run, d):
    b = d.build(run)
    x = ["--corpus", d.corpus(run, (400, 20000)[run.thorough])]
    d.workers(run, b, extra=x, stack=2 << 20)
    if run.thorough: d.workers(run, d.build(run, "asan"), kind="asan", part="asan", extra=x, stack=16 << 20, env={"ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1"})

def bits(run, d):
    d.workers(run, d.build(run))
    d.workers(run, d.build(run, "debug"), kind="debug", part="debug", seconds=None if run.thorough else 60)

def wtf(run, d):
    d.workers(run, d.build(run))
    d.miri(run)

PARTS = {
    "C01": dict(level="exploration", run=robust, rule="mutated, spliced, truncated and random files; noise under every known attribute name; every byte of small classes set to boundary values; inputs built to exhaust stack or time, on a 2 MB stack; hostile texts; distinct by input"),
    "C02": dict(level="exploration", run=native(), rule="every 2- and 4-byte field of small classes set to large values, files cut behind a large count, mutants and large honest files, under a counting allocator; distinct by file"),
    "C03": dict(level="exploration", run=native(files=(3000, 30000)), rule="random well-formed classes of all kinds (reference generator), each encoded with random layout freedoms, read, compared, written, decoded strictly, read and written again, and also built through the API; real class files the same way; distinct by content"),
    "C04": dict(level="exploration", run=native(files=(1000, 30000)), rule="every instruction kind with boundary and enumerated operands, single and in methods with constant pools around the ldc limit; random bodies; distinct by instruction and operands"),
    "C05": dict(level="exploration", run=native(files=(1500, 30000)), rule="classes read, built and edited, written and decoded by a strict structural validator; distinct by content"),
    "C06": dict(level="exploration", run=native(files=(1500, 30000)), rule="methods with branches and switches of every kind around the 16-bit distances, alignments, chains of growing branches; distinct by layout"),
    "C07": dict(level="exploration", run=native(), rule="every countable or measurable part of a class just below, at and above its limit; missing labels, inverted ranges, impossible switches; distinct by limit and side"),
    "C08": dict(level="exploration", run=native(), rule="every code point, all short byte sequences, random strings and mutated encodings against the reference codec; distinct by string"),
    "C09": dict(level="exploration", run=wtf, rule="random histories of string operations against a model of code points, every pair and slice of boundary strings, all short byte sequences; a part of it under Miri; distinct by string and operation"),
    "C10": dict(level="exploration", run=native(files=(1500, 30000)), rule="random and enumerated descriptors, the texts of real classes, and near-descriptors against a reference parser; distinct by text"),
    "C11": dict(level="exploration", run=native(files=(1500, 30000)), rule="random signatures of all three kinds and near-signatures against a reference parser, alone and in class files; distinct by text"),
    "C12": dict(level="exploration", run=native(), rule="random histories of insertions (small vocabulary, repeated and fresh values), serialised and looked up by every index and kind; distinct by history"),
    "C13": dict(level="exploration", run=native(files=(1000, 30000)), rule="random bootstrap tables (nested, shared, duplicated, unused) and redirections of their indices; distinct by the dynamics a class contains"),
    "C14": dict(level="exploration", run=native(files=(1000, 30000)), rule="random annotations of every kind and place; every element-value tag against every kind of constant, every target tag at every place, out-of-range values; distinct by content"),
    "C15": dict(level="exploration", run=native(files=(1500, 30000)), rule="random line tables, variable tables and positions of type annotations, split, shuffled and with code inserted around them; distinct by content or by insertion"),
    "C16": dict(level="exploration", run=native(files=(100, 2000)), rule="readers and writers failing, ending or full at every byte, in pieces and with interruptions; distinct by file"),
    "C17": dict(level="exploration", run=det, rule="each file read and written repeatedly, in two processes in opposite order with failing operations in between, and by threads sharing it (also under ThreadSanitizer); distinct by file"),
    "C18": dict(level="exploration", run=bits, rule="random and enumerated bit patterns in every place a constant can be; pairs of total floats; distinct by value"),
    "C19": dict(level="exploration", run=native(files=(1500, 30000)), rule="random metadata attributes and unknown attributes; known attributes with a length that disagrees with their content; distinct by content"),
    "C20": dict(level="exploration", run=native(), rule="every 16-bit flag word in every place, every version pair; distinct by value"),
    "C21": dict(level="exploration", run=jvm.check, rule="handwritten and random Java programs and modules compiled by javac, original and rewritten, run on a JVM and compared by output, errors and exit status, those of version 49 with bytecode verification; classes generated from instructions in arrangements javac does not emit (overlapping and self-covering handlers, subroutines, stack shuffles, dynamic constants) the same way (thorough: the compiler itself, rewritten, compiles them to the same files); distinct by output line", assume=["javac and the JVM installed here are right", "bytecode verification is off for classes that need stack maps, which the library does not keep; it is on for classes of version 49"]),
    "C22": dict(level="exploration", run=native(), rule="every handle kind with every kind of member and name; distinct by handle"),
    "C23": dict(level="exploration", run=native(), rule="every frame tag with boundary and random operands, both directions; distinct by frame"),
    "C25": dict(level="exploration", run=native(), rule="random values generated twice, and again with one random choice replaced; every instruction against every other; every two combinations of very few parts; distinct by value"),
    "C24": dict(level="exploration", run=native(), rule="random edit histories on read and built classes, written and read back between edits; distinct by sequence of edits"),
}
