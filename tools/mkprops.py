#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source for property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Reading any byte string returns a class or an error, never crashes",
  "For every byte string whatsoever, reading a class from it terminates promptly with either a class or an error value. It never panics, aborts, overflows the stack, loops forever or corrupts memory, and the same holds for the parsers of descriptors, generic signatures and modified UTF-8 on every string, and for writing back any class that was read.",
  ["inputs"], "every byte string (valid, truncated, bit-flipped, spliced, adversarially nested or with lying counts) and every string given to the text parsers",
  "The tests read two well-formed jars and a few literals; hostile, truncated and mutated inputs are an unbounded space they never enter.",
  ["src/clazz.rs", "src/cp.rs", "src/code.rs", "src/insn.rs", "src/annotation/mod.rs", "src/ty.rs", "src/signature.rs", "src/mod_utf8.rs", "coffer_macros/src/derive.rs", "wtf8/src/lib.rs"],
  [("Result-returning readers and checked constant-pool lookups", "src/rw.rs, src/cp.rs"), ("attribute framing with exact-length check", "coffer_macros/src/derive.rs"), ("label resolution by checked map lookup", "src/code.rs")],
  ["Class::read_from", "Class::write_to", "parse_type", "signature FromStr", "modified_utf8_to_string"])

p("C02", "Reading never allocates for data the input does not contain",
  "Length and count fields found in the input never make reading allocate memory for data that is not there: on inputs whose constants are short, peak heap use while reading stays within a fixed multiple (1024) of the number of bytes actually supplied plus a fixed constant (160 KB), whatever lengths the input declares.",
  ["inputs"], "every input, in particular those declaring code, attribute, table, switch or array sizes far beyond the bytes that follow",
  "Tests only use honest inputs and never measure memory.",
  ["src/code.rs", "src/insn.rs", "src/annotation/mod.rs", "src/dynamic.rs", "src/helper.rs", "coffer_macros/src/derive.rs"],
  [("buffers filled from the reader before or while being grown", "src/code.rs, coffer_macros/src/derive.rs"), ("element-by-element vectors", "src/helper.rs")],
  ["heap high-water mark across Class::read_from"])

p("C03", "Reading and rewriting a class preserves all of its content",
  "For every well-formed class file of a supported version, reading it and writing it back yields a class file which, decoded independently according to the JVM specification, has the same version, flags, names, supertypes, members, constants, code and attributes as the original; only stack-map frames, undefined flag bits, constant-pool numbering and the order/encoding freedoms of the format may differ. Reading the rewritten file again yields a class equal to the first one.",
  ["inputs"], "every well-formed class file, over all members, attributes, constants, instruction encodings and constant-pool layouts",
  "The round-trip tests use fixed jars and check only that reading succeeds or that one class still runs; they never compare contents with an independent decoder.",
  ["src/clazz.rs", "src/member.rs", "src/attr.rs", "src/code.rs", "src/cp.rs", "src/rw.rs", "coffer_macros/src/derive.rs"],
  [("symmetric derived readers and writers", "coffer_macros/src/derive.rs"), ("constant pool rebuilt from resolved values", "src/cp.rs, src/rw.rs")],
  ["Class::read_from", "Class::write_to"])

p("C04", "Every instruction is read and written as exactly that JVM instruction",
  "For every instruction of the JVM instruction set in any of its encodings, with every operand value, the instruction read from code denotes that operation and operands, and writing an instruction produces an encoding whose meaning under the JVM specification is that operation with those operands. Named instruction constructors denote the instruction they are named after, and exception-handler ranges and targets keep designating the same instructions.",
  ["inputs", "programs"], "all opcodes, short/long/wide encodings, operand values at and around every encoding boundary, and code built through the API as well as read from files",
  "Unit tests decode a handful of opcodes; the space of opcode x operand x encoding x position is not enumerated and the writer side of most opcodes is never executed.",
  ["src/code/convert.rs", "src/code/structure.rs", "src/insn.rs", "src/constants/insn.rs", "src/code.rs"],
  [("raw opcode table", "src/insn.rs"), ("conversion to and from abstract instructions", "src/code/convert.rs")],
  ["Code read_from/write_to inside Class"])

p("C05", "Whatever is written is a structurally valid class file",
  "Whenever writing a class whose parts are of the kind their place calls for (a field descriptor where a field is described, and so on) reports success, the bytes produced form a single complete class file: the constant pool is dense and correctly counted with every reference in range and of the right kind, every count and attribute length matches the data that follows, every code offset lies on an instruction boundary, switch padding is aligned and zero, and nothing trails the last attribute.",
  ["inputs", "programs"], "every class value, whether read from a file, edited, or built through the API, for which writing returns success",
  "Tests only re-read output with the same library, which cannot notice errors its reader and writer share.",
  ["src/clazz.rs", "src/cp.rs", "src/rw.rs", "src/helper.rs", "src/code.rs", "coffer_macros/src/derive.rs"],
  [("length computed from the written buffer", "coffer_macros/src/derive.rs"), ("constant pool index accounting", "src/cp.rs")],
  ["bytes produced by Class::write_to"])

p("C06", "Branches and switches reach their targets at any distance and alignment",
  "In every method that can be encoded, each goto, jsr, conditional branch, tableswitch and lookupswitch transfers control after writing to the same instruction its label marks and under the same condition, whatever the distance (near, around the 16-bit limits, forward or backward), the alignment, the nesting with other branches, and the number of switch cases.",
  ["programs"], "all placements of labels, branch kinds, switch sizes and keys, code sizes up to the 65535-byte limit, especially distances around +/-32767 and cascades where widening one branch pushes another over the limit",
  "The existing code tests use methods of a few instructions; wide forms and cascaded layouts are never produced.",
  ["src/code.rs", "src/code/convert.rs", "src/code/structure.rs", "src/insn.rs"],
  [("jump layout and size selection", "src/code.rs"), ("condition negation for wide conditional jumps", "src/code/structure.rs")],
  ["written code array decoded by an independent decoder"])

p("C07", "Classes that the format cannot represent are refused with an error",
  "If a class value cannot be expressed in the class-file format (a string over 65535 encoded bytes, too many constants, members, interfaces, attributes, table entries or annotation values, code over 65535 bytes, a missing label, an inverted variable range, an empty or overflowing switch, an unresolved bootstrap method), writing returns an error. It never panics, and never reports success with truncated or altered content; values exactly at each limit are written correctly.",
  ["inputs", "programs"], "every class value at, just below and just above each limit of the format, and every reference to something absent",
  "Tests never build a value near a limit or with a dangling reference.",
  ["src/clazz.rs", "src/cp.rs", "src/rw.rs", "src/code.rs", "src/helper.rs", "src/annotation/mod.rs", "src/dynamic.rs"],
  [("checked length conversion", "src/helper.rs"), ("label lookup returning an error", "src/code.rs")],
  ["result and bytes of Class::write_to"])

p("C08", "Modified UTF-8 conversion is exact in both directions",
  "Encoding a string to modified UTF-8 and decoding it gives back the same string for every sequence of code points including NUL, supplementary characters and unpaired surrogates, and the encoded bytes are exactly those the JVM specification prescribes. Every well-formed modified UTF-8 byte sequence decodes to the UTF-16 sequence it stands for, and byte sequences with truncated, stray, missing or overlong units are rejected with an error.",
  ["inputs"], "all code-point sequences and all byte strings up to the bounds explored, with all 1-, 2- and 3-byte sequences and all surrogate combinations",
  "A few literals are tested; the interaction of NUL, surrogate halves and truncation at every position is not.",
  ["src/mod_utf8.rs", "src/rw.rs", "wtf8/src/lib.rs"],
  [("two-pass decoder", "src/mod_utf8.rs"), ("WTF-8 validation", "wtf8/src/lib.rs")],
  ["modified_utf8_to_string", "string_to_modified_utf8"])

p("C09", "WTF-8 strings stay well-formed and behave as code-point sequences",
  "Through every sequence of safe string operations (construction, validation, appending, truncation, slicing, conversion, iteration, case mapping, comparison, hashing), a WTF-8 string always holds well-formed WTF-8 (surrogate pairs never left unjoined), each operation returns what the same operation on the code-point sequence would, invalid slices panic instead of producing broken strings, and no memory error or undefined behaviour occurs.",
  ["inputs", "histories"], "all operation histories and operand strings, including unpaired surrogates at every boundary and arbitrary byte strings offered for validation",
  "The inherited unit tests check single operations on a few literals, never histories, and never under an undefined-behaviour detector.",
  ["wtf8/src/lib.rs", "wtf8/src/std_internal.rs"],
  [("surrogate joining on push", "wtf8/src/lib.rs"), ("validation of bytes", "wtf8/src/lib.rs"), ("boundary-checked slicing", "wtf8/src/lib.rs")],
  ["Wtf8String / Wtf8Str public API", "Miri and AddressSanitizer reports"])

p("C10", "Descriptors parse to the type they denote and print back unchanged",
  "Every valid field or method descriptor parses to the type structure the JVM specification gives it, and printing that structure gives back the identical descriptor (or the error of the sink, when that refuses part of it); every type value that denotes a descriptor survives printing and parsing. Strings that are not exactly one descriptor (unknown characters, missing pieces, trailing text, more than 255 dimensions, nested method types) are rejected with an error; which characters make up a class name is not judged.",
  ["inputs"], "all strings over the descriptor alphabet up to a length bound, and random larger descriptors with arbitrary class names",
  "Four literals are tested.",
  ["src/ty.rs", "src/rw.rs", "src/code/structure.rs"],
  [("recursive-descent descriptor parser", "src/ty.rs"), ("descriptor printer", "src/ty.rs")],
  ["parse_type", "Display for Type", "Wtf8String::from(&Type)", "write_type"])

p("C11", "Generic signatures parse to their structure and print back unchanged",
  "Every valid class, method or field signature (Unicode identifiers, type arguments nested up to the library's limit of 128, wildcards, arrays, inner-class suffixes, class and interface bounds, thrown types) parses to the structure the JVM specification gives it, and printing that structure gives back the identical string (or the error of the sink, when that refuses part of it), also when read from and written to a class file. Text with missing pieces, unknown type characters or anything after the signature is rejected with an error, and whatever is accepted prints back identically; which characters make up an identifier is not judged.",
  ["inputs"], "all signatures derivable from the JVM grammar up to a depth bound, and mutated signatures",
  "No test parses more than a few signatures and none compares the structure with the grammar.",
  ["src/signature.rs"],
  [("recursive-descent signature parsers", "src/signature.rs"), ("Display implementations", "src/signature.rs")],
  ["FromStr / Display of the signature types", "Signature attributes in class files"])

p("C12", "Constant-pool insertion and lookup are inverse, with stable indices",
  "Through every history of insertions into a constant-pool writer, an inserted value keeps the same index forever, equal values share an index, different values never do (floating-point values compared by bits), 64-bit values occupy two indices, and after serialising and reading the pool back every index looks up exactly the value inserted there and lookups of other kinds or indices find nothing.",
  ["histories", "inputs"], "all insertion histories over every constant kind, interleaved and repeated, and every lookup kind at every index",
  "No test exercises the constant pool on its own.",
  ["src/cp.rs", "src/rw.rs"],
  [("entry cache with index accounting", "src/cp.rs"), ("typed insert and read helpers", "src/rw.rs")],
  ["VecCp insert_*", "MapCp read_*", "VecCp::write_to / MapCp::read_from"])

p("C13", "Dynamic constants and call sites stay tied to their bootstrap methods",
  "For every class containing invokedynamic call sites or dynamic constants (loaded by instructions or nested as bootstrap arguments up to the library's nesting limit of 256), reading gives each one the bootstrap method and arguments of its table entry, and writing produces a table in which each one again denotes the same bootstrap method and arguments, with repeated rewriting not growing the class. References to missing table entries and circular references are reported as errors on reading.",
  ["inputs", "histories"], "all graphs of dynamic constants over bootstrap tables (shared, nested, unused, cyclic, out of range), built by API or read, over repeated read/write rounds",
  "One test writes a single lambda call site; nesting, sharing and missing entries never occur.",
  ["src/dynamic.rs", "src/cp.rs", "src/rw.rs", "src/clazz.rs", "src/code/convert.rs"],
  [("deferred bootstrap resolution", "src/cp.rs"), ("bootstrap table emission", "src/clazz.rs")],
  ["Class::read_from", "Class::write_to"])

p("C14", "Annotations and type annotations are preserved exactly",
  "Every runtime-visible or -invisible annotation, parameter annotation, annotation default and type annotation on classes, fields, methods and code, with element values of every kind and nesting (up to the library's nesting limit of 128), is read with the type, element names, values, targets and type paths the file states, and is written back equivalently, in the same attribute and order. Values out of range for their kind and unknown tags are rejected with an error.",
  ["inputs"], "all annotation trees, all target kinds with all operand values and all type paths",
  "Tests contain no annotation content checks.",
  ["src/annotation/mod.rs", "src/annotation/type_annotation.rs", "src/member.rs", "src/attr.rs", "src/code/structure.rs"],
  [("element value reader and writer", "src/annotation/mod.rs"), ("target enums with tags", "src/annotation/type_annotation.rs")],
  ["annotation attributes in read models and written files"])

p("C15", "Debug information stays attached to the same instructions",
  "Line numbers, local-variable names, types, generic types and scope ranges, and the code positions of type annotations, refer after reading to the instructions the file attaches them to, and after writing (including when instructions were inserted or removed around them, or jumps changed size) refer to the same instructions again; entries are neither lost, duplicated nor merged.",
  ["inputs", "programs"], "all line and variable tables (multiple tables, several lines per instruction, shared slots, ranges ending at code end) and all edits around them",
  "No test looks at debug information after writing.",
  ["src/code.rs", "src/code/structure.rs", "src/code/convert.rs", "src/annotation/type_annotation.rs"],
  [("labels and line markers inside the instruction list", "src/code.rs"), ("label-to-offset resolution on writing", "src/code.rs")],
  ["Code attributes in read models and written files"])

p("C16", "I/O failures are reported and streams are used exactly",
  "If the underlying reader or writer fails at any byte, the operation returns an error carrying that I/O error, or an unexpected-end error when the input ends early; success is only reported when everything was read or handed to the writer. Reading consumes exactly the bytes of one class and leaves what follows, results do not depend on how the stream chunks data or is interrupted, and truncating a valid class at any point is an error.",
  ["fault_sequences", "inputs"], "a failure, end of file, interruption or short transfer at every byte position of every class",
  "Tests only use in-memory, never-failing streams.",
  ["src/rw.rs", "src/clazz.rs", "src/code.rs", "coffer_macros/src/derive.rs"],
  [("read_exact/write_all with error propagation", "src/rw.rs"), ("buffered attribute bodies", "coffer_macros/src/derive.rs")],
  ["Class::read_from / write_to over fault-injecting streams"])

p("C17", "Reading and writing are deterministic, pure and thread-safe",
  "Reading the same bytes always yields equal classes and writing equal classes always yields the same bytes, in any process, on any thread, in any order and any number of times; writing does not change the class, and classes shared or read concurrently between threads behave as in a sequential run without data races. From the second rewrite on, reading and writing reproduces the same bytes.",
  ["schedules", "histories", "inputs"], "all repetitions, process runs (hash seeds) and thread interleavings of reads and writes over all classes",
  "Each test runs one read or write once on one thread.",
  ["src/clazz.rs", "src/code.rs", "src/annotation/mod.rs", "src/dynamic.rs", "src/cp.rs"],
  [("ordered containers where output order matters", "src/code.rs, src/annotation/mod.rs"), ("once-initialised shared bootstrap cells", "src/dynamic.rs")],
  ["bytes and models across runs, threads and processes", "ThreadSanitizer / Miri reports"])

p("C18", "Numeric and string constants survive bit for bit",
  "Every int, long, float, double and string constant, in field constant values, load instructions, bootstrap arguments and annotation values, keeps its exact bits or UTF-16 units through reading and writing, including negative zero, infinities, every NaN payload, extreme integers and unpaired surrogates. The float wrappers' equality, ordering and hashing are total, mutually consistent, and equal exactly for identical bit patterns.",
  ["inputs"], "all 32- and 64-bit patterns (all boundary patterns and random ones) and all string contents in all constant positions",
  "No test uses NaN payloads or negative zero in constants.",
  ["src/total_floats.rs", "src/cp.rs", "src/rw.rs", "src/code/convert.rs", "src/loadable.rs"],
  [("bitwise total comparison", "src/total_floats.rs"), ("short-form selection for constants", "src/code/convert.rs")],
  ["constants in read models and written files", "TotalF32/TotalF64 operators"])

p("C19", "Class-level metadata and unknown attributes are preserved",
  "Module descriptors, module packages and main class, inner classes, enclosing method, nest host and members, source file, source debug extension, exceptions, method parameters, synthetic and deprecated markers are read with the fields the file states and written back equivalently in order, and every attribute the library does not know is kept with its name and bytes unchanged in its place. A known attribute whose declared length disagrees with its content is rejected.",
  ["inputs"], "all contents of these attributes at all attachment points, absent optional parts included, and unknown attributes with arbitrary names and bytes",
  "Tests contain no content checks for these attributes.",
  ["src/attr.rs", "src/module.rs", "src/member.rs", "coffer_macros/src/derive.rs", "src/helper.rs"],
  [("derived attribute dispatch by name", "coffer_macros/src/derive.rs"), ("optional and indirect constant-pool strings", "src/helper.rs")],
  ["attributes in read models and written files"])

p("C20", "Flags and versions mean what the JVM specification says",
  "Each access-flag constant has the bit the JVM specification assigns for its kind of item, reading keeps exactly the defined bits and writing emits exactly the bits set; every major version from 45 to 59 with every minor version is read and written unchanged and shown under its release name, and any other major version or a wrong magic number is rejected with an error.",
  ["inputs"], "all 65536 flag words for each flag kind and all 65536 major versions (exhaustive), with boundary and random minor versions",
  "Tests use two versions and a few flags.",
  ["src/flags.rs", "src/version.rs", "src/clazz.rs"],
  [("bitflags definitions", "src/flags.rs"), ("tagged version enum", "src/version.rs")],
  ["flag and version ReadWrite implementations", "class headers"])

p("C21", "A rewritten program runs exactly as before on a JVM",
  "Java programs whose class files have been read and rewritten load on a JVM and behave exactly as the original program: same output, exceptions, line numbers in stack traces, reflective view and exit status.",
  ["programs"], "Java programs exercising the instruction set, exceptions, switches, large methods, arrays, strings, lambdas, generics, annotations and reflection",
  "One 'hello world'-style class is executed by the tests.",
  ["src/clazz.rs", "src/code.rs", "src/code/convert.rs"],
  [("whole read/write pipeline", "src/clazz.rs")],
  ["observable behaviour of a JVM running original and rewritten classes"])

p("C22", "Method-handle validity checking follows its documented rules",
  "For every method handle, the validity check accepts exactly the combinations of kind, member descriptor and member name its documentation allows and returns an error for all others, handles read or written on their own are subject to it, and handle kinds keep their JVM-assigned numbers with every other number rejected.",
  ["inputs"], "all kinds x descriptor shapes x member names (exhaustive over classes), all 256 kind bytes",
  "No test calls the check.",
  ["src/loadable.rs", "src/rw.rs"],
  [("check()", "src/loadable.rs"), ("kind conversion", "src/loadable.rs")],
  ["MethodHandle::check, MethodHandleKind conversions, MethodHandle read/write"])

p("C23", "Stack-map frames decode and encode as the JVM specification defines",
  "Every stack-map frame and verification type is read from the encoding the JVM specification gives it and written in a valid encoding of the same frame (compressed forms only where they apply), and frames that cannot be expressed or use reserved tags are rejected with an error.",
  ["inputs"], "all frame tags and offsets, verification types of all kinds, and frame values at and beyond the limits",
  "No test reads or writes a frame on its own; class reading discards frames.",
  ["src/code.rs", "src/code/structure.rs"],
  [("RawFrame reader and writer", "src/code.rs"), ("VerificationType tags", "src/code.rs")],
  ["RawFrame / VerificationType read_from and write_to"])

p("C24", "Edited classes are written as edited",
  "After any sequence of edits to a class value (adding, removing, replacing or reordering members, attributes, annotations, instructions, labels, constants, handlers or names), the written file decodes to exactly the edited class, with no trace of removed content other than in the constant pool and no effect on content not edited.",
  ["histories", "programs"], "all edit sequences on read and on constructed classes, with rewriting in between",
  "No test edits a class that was read.",
  ["src/clazz.rs", "src/code.rs", "src/attr.rs", "src/member.rs", "src/rw.rs"],
  [("labels as symbolic positions", "src/code/structure.rs"), ("constant pool rebuilt on every write", "src/clazz.rs")],
  ["Class::write_to after edits"])

p("C25", "Equality, hashing and cloning of model values agree with their content",
  "For all values of the model (names, types, constants, member references, method handles, bootstrap methods, dynamics, instructions, code, fields, methods, attributes, annotation values and signatures): two values compare equal exactly if they have the same content (labels being part of it), in both directions and with != as the negation, values that are equal and can be hashed have equal hashes however they are shared or were built, and a clone equals its original.",
  ["inputs"], "all pairs of model values, including pairs that differ in a single detail, share parts, or come from different constructions",
  "Tests compare a few values for equality and none for difference; the derived and handwritten implementations are relied upon by the constant pool, by assertions of users, and by collections.",
  ["src/dynamic.rs", "src/ty.rs", "src/loadable.rs", "src/code/structure.rs", "src/signature.rs", "src/total_floats.rs", "src/annotation/mod.rs", "wtf8/src/lib.rs"],
  [("model types", "src/code/structure.rs"), ("Dynamic and BootstrapMethod", "src/dynamic.rs"), ("total floats", "src/total_floats.rs")],
  ["PartialEq, Eq, Hash and Clone of the public model types"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
