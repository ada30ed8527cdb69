"""C21: Java programs, rewritten by the library and run again."""
import glob, hashlib, os, random, re, shutil, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOVERIFY = ["-XX:+UnlockDiagnosticVMOptions", "-XX:-BytecodeVerificationRemote", "-XX:-BytecodeVerificationLocal"]  # the library drops stack maps

class Gen:
    """Random programs whose printed hash depends on every step they take."""
    def __init__(self, seed, old=False): self.r = random.Random(seed); self.uid = 0; self.old = old
    def name(self, p): self.uid += 1; return f"{p}{self.uid}"
    def expr(self, vs, d=0):
        r = self.r
        k = r.randrange(14 if d < 3 else 3)
        if k == 0: return str(r.choice([0, 1, -1, 5, 6, 127, 128, -129, 32767, 32768, -32769, 65536, 2147483647, r.randrange(-10**9, 10**9)]))
        if k in (1, 2) and vs: return r.choice(vs)
        if k < 3: return "x"
        a = self.expr(vs, d + 1); b = self.expr(vs, d + 1)
        if k == 3: return f"({a} / ({b} | 1))"
        if k == 4: return f"({a} {r.choice(['<<', '>>', '>>>'])} ({b} & 31))"
        if k == 5: return f"(int) ({a} * 0x1234567L >> {r.randrange(1, 30)})"
        if k == 6: return f"(({a}) {r.choice(['<', '>', '<=', '>=', '==', '!='])} ({b}) ? {self.expr(vs, d + 1)} : {self.expr(vs, d + 1)})"
        if k == 7: return f"(int) (({a}) * {r.choice(['0.5', '-1.25e3', '3f', '1e-3f'])})"
        if k == 8: return f"({r.choice(['byte', 'short', 'char'])}) ({a})"
        if k == 9: return f"arr[({a}) & 7]"
        if k == 10: return f"String.valueOf({a}).length()"
        return f"(({a}) {r.choice(['+', '-', '*', '^', '&', '|', '+', '*'])} ({b}))"
    def cond(self, vs):
        r = self.r
        c = f"({self.expr(vs)}) {r.choice(['<', '>', '<=', '>=', '==', '!='])} ({self.expr(vs)})"
        k = r.randrange(6)
        if k == 0: return f"{c} && ({self.expr(vs)}) > 0"
        if k == 1: return f"{c} || !(({self.expr(vs)}) < ({self.expr(vs)}))"
        if k == 2: return r.choice(["obj == null", "obj != null", "obj instanceof String", "obj == other", "obj != other"])
        return c
    def block(self, vs, depth, n, loop):
        return "{ " + " ".join(self.stmt(list(vs), depth, loop) for _ in range(n)) + " }"
    def stmt(self, vs, depth, loop):
        r = self.r
        self.uid += 1
        h = f"h = h * 31 + {self.uid}; if (--fuel < 0) return h;\n"
        k = r.randrange(16 if depth < 4 else 4)
        n = r.randrange(1, 4)
        if k in (0, 1): v = self.name("v"); return f"{h} int {v} = {self.expr(vs)}; h ^= {v}; x += {v};"
        if k == 2: return f"{h} x {r.choice(['+=', '-=', '*=', '^='])} {self.expr(vs)};"
        if k == 3: return f"{h} arr[({self.expr(vs)}) & 7] {r.choice(['=', '+=', '^='])} {self.expr(vs)};"
        if k in (4, 5): return f"{h} if ({self.cond(vs)}) {self.block(vs, depth + 1, n, loop)} else {self.block(vs, depth + 1, n, loop)}"
        if k == 6:
            v = self.name("i")
            return f"{h} for (int {v} = 0; {v} < {r.randrange(1, 5)}; {v}++) {self.block(vs + [v], depth + 1, n, True)}"
        if k == 7: v = self.name("w"); return f"{h} int {v} = 0; do {self.block(vs + [v], depth + 1, n, True)} while (++{v} < {r.randrange(1, 4)} && ({self.cond(vs)}));"
        if k == 8:
            cs = sorted(r.sample([0, 1, 2, 3, 4, 5, 6, 7], r.randrange(1, 8)) if r.random() < .6 else set(r.choice([0, 7, 100, -5, 10**6, -2**31, 2**31 - 1, r.randrange(-2**31, 2**31)]) for _ in range(6)))
            e = f"({self.expr(vs)}) & 7" if r.random() < .7 else self.expr(vs)
            b = " ".join(f"case {c}: {self.block(vs, depth + 1, 1, loop)} {r.choice(['break;', '', 'break;'])}" for c in cs)
            return f"{h} switch (({e}) + 0) {{ {b} default: {self.block(vs, depth + 1, 1, loop)} }}"
        if k == 9: return f"{h} try {self.block(vs, depth + 1, n, loop)} catch (IllegalStateException e) {{ h = h * 17 + line(e); }} finally {{ h += {self.uid}; }}"
        if k == 10: return f"{h} if ({self.cond(vs)}) throw new IllegalStateException(\"t{self.uid}\");"
        if k == 11 and loop: return f"{h} if ({self.cond(vs)}) {r.choice(['continue', 'break'])};"
        if k == 12: return f"{h} switch (String.valueOf(({self.expr(vs)}) & 3)) {{ case \"0\": h += 5; case \"1\": h *= 3; break; case \"2\": {{ h ^= 77; }} }}"
        if k == 13 and self.old: return f"{h} {{ Wide w = wide; long l = w.go({self.expr(vs)}, {self.expr(vs)} * 3L, {self.expr(vs)} * .5, arr, (byte) x); h += l; obj = w; }}"
        if k == 13: v = self.name("f"); return f"{h} java.util.function.IntUnaryOperator {v}; {{ final int c = {self.expr(vs)}; {v} = q -> q * 3 + c; }} h += {v}.applyAsInt(x); obj = \"s\" + h + x;"
        if k == 14: return f"{h} synchronized (arr) {self.block(vs, depth + 1, n, loop)}"
        if k == 15: return f"{h} {{ long l = ({self.expr(vs)}) * 7L; double d = l / 3.0; float g = (float) d; if (l > x) h ^= Double.doubleToRawLongBits(d); if (d < l) h += Float.floatToRawIntBits(g); if (g >= d) h++; if (d != d) h--; obj = other; }}"
        return f"{h} x++;"
    def long_body(self, target):
        """Many plain statements: branches over them need wide jumps."""
        return "".join(f"x = x * 31 + {self.r.randrange(10**6)};\n" for _ in range(target // 7))
    def cls(self, name, far):
        r = self.r
        ms, calls = [], []
        for j in range(r.randrange(2, 5)):
            body = "\n".join(self.stmt(["x"], 0, False) for _ in range(r.randrange(3, 8)))
            ms.append(f"static long m{j}(int x) {{ long h = x; int fuel = 4000; int[] arr = new int[8]; Object obj = null, other = name; {body}\n return h + x + arr[3]; }}")
            calls.append(f"m{j}")
        if far:
            t = r.choice([32700, 32760, 33000, 40000, 60000])
            a = t // 2 if r.random() < .4 else t
            ms.append(f"static long far(int x) {{ long h = 0; for (int i = 0; i < 6; i++) {{ if ((i & 1) == x % 2) {{ {self.long_body(a - 400)} h ^= x; }} else {{ h += 3; if (i == 4) continue; }} h = h * 31 + x; }} return h; }}")
            calls.append("far")
        run = " ".join(f"for (int i = -3; i < 9; i++) try {{ System.out.print({m}(i * 7919) + \" \"); }} catch (RuntimeException e) {{ System.out.print(e.getMessage() + \"@\" + line(e) + \" \"); }} System.out.println();" for m in calls)
        wide = "interface Wide { long go(int a, long b, double c, int[] d, byte... e); } static final Wide wide = new Wide() { public long go(int a, long b, double c, int[] d, byte... e) { d[b > c ? 0 : 1] ^= e[0]; return a + b - (long) c; } };\n" if self.old else ""
        return f"package progs;\npublic class {name} {{ {wide}static final String name = \"{name}\";\nstatic int line(Throwable t) {{ return t.getStackTrace()[0].getLineNumber(); }}\n" + "\n".join(ms) + f"\npublic static void run() {{ {run} }} }}\n"

def go(cmd, t=300, **kw):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t, **kw)
    except subprocess.TimeoutExpired: return ("timeout", b"", b"")
    return (p.returncode, p.stdout, p.stderr)

def differ(a, b):
    for what, x, y in zip(("exit status", "output", "error output"), a, b):
        if x != y:
            if isinstance(x, bytes):
                xs, ys = x.decode(errors="replace").splitlines(), y.decode(errors="replace").splitlines()
                for i, (p, q) in enumerate(zip(xs + [None] * len(ys), ys + [None] * len(xs))):
                    if p != q: return f"{what} differs in line {i + 1}: {str(p)[:600]!r} became {str(q)[:600]!r}"
            return f"{what} differs: {x!r} became {y!r}" + (b[2].decode(errors="replace")[:800] if len(b) > 2 else "")
    return None

def rewrite(run, d, binary, src, dst, mode):
    lst = os.path.join(run.work, "list")
    n = 0
    with open(lst, "w") as o:
        for root, _, fs in os.walk(src):
            for f in sorted(fs):
                if not f.endswith(".class"): continue
                p = os.path.join(root, f)
                q = os.path.join(dst, os.path.relpath(p, src))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                o.write(p + "\t" + q + "\n"); n += 1
    p = subprocess.run([binary, "rewrite", "--list", lst, "--mode", mode, "--stack", str(64 << 20)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    bad = [l for l in p.stdout.splitlines() if l.startswith("FAILED ")]
    if p.returncode != 0 and not bad: bad = [f"FAILED the rewriting process ended with {p.returncode}: {p.stderr[-1500:]}"]
    run.stats[f"classes_rewritten_{mode}"] = run.stats.get(f"classes_rewritten_{mode}", 0) + n - len(bad)
    return bad

def check(run, d):
    binary = d.build(run)
    for t in ("java", "javac"):
        if not shutil.which(t): raise d.Broken(t + " is not here")
    src = os.path.join(run.work, "src"); os.makedirs(src + "/progs")
    for f in glob.glob(os.path.join(HERE, "java/*.java")): shutil.copy(f, src + "/progs/")
    names = ["Switches", "Flow", "Lambdas", "Consts", "Reflect", "Old", "Faces"]
    g = Gen(run.seed * 1000 + 17)
    n = 400 if run.thorough else 60
    rand = []
    for i in range(n):
        name = f"R{i}"
        open(f"{src}/progs/{name}.java", "w").write(g.cls(name, i % 6 == 0))
        rand.append(name)
    dirs = {}
    for rel in (["15", "8", "11"] if run.thorough else ["15", "8"]):
        out = os.path.join(run.work, "c" + rel); os.makedirs(out)
        fs = sorted(glob.glob(src + "/progs/*.java"))
        # older source levels leave out what they cannot express
        if rel == "8": fs = [f for f in fs if os.path.basename(f) in ("Main.java", "Flow.java", "Consts.java", "Boom.java", "Old.java") or os.path.basename(f).startswith("R") and os.path.basename(f) != "Reflect.java"]
        if rel == "11": fs = [f for f in fs if os.path.basename(f) not in ("Switches.java", "Faces.java")]
        a = out + ".args"
        for _ in range(3):
            open(a, "w").write("\n".join(fs))
            rc, o, e = go(["javac", "-J-Xss64m", "-encoding", "UTF-8", "--release", rel, "-g", "-parameters", "-nowarn", "-Xlint:none", "-d", out, "@" + a])
            bad = set(re.findall(r"/(R\d+)\.java:\d+: error", (o + e).decode(errors="replace")))
            if rc == 0 or not bad: break
            # a random program javac does not take: leave it out
            run.stats["programs_not_compiled"] = run.stats.get("programs_not_compiled", 0) + len(bad)
            fs = [f for f in fs if os.path.basename(f)[:-5] not in bad]
        if rc != 0: raise d.Broken(f"javac: {rc} {(o + e).decode(errors='replace')[-2000:]}")
        dirs[rel] = out
    have = lambda out, x: os.path.exists(f"{out}/progs/{x}.class")
    java = ["java", "-ea", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"] + NOVERIFY
    compare = []
    for rel, out in dirs.items():
        for mode in ("once", "twice"):
            dst = out + mode
            bad = rewrite(run, d, binary, out, dst, mode)
            for b in bad[:3]: run.viol.append((f"java/{rel}", b, ["rewriting a class compiled by javac --release " + rel]))
            if bad: continue
            compare.append((rel, mode, out, dst))
    base = {}
    jobs = lambda out: [("programs", ["progs.Main"] + [x for x in names + rand if have(out, x)]), ("uncaught", ["progs.Boom"]), ("exit", ["progs.Boom", "abc"])]
    for rel, mode, out, dst in compare:
        for what, args in jobs(out):
            if (rel, what) not in base: base[rel, what] = go(java + ["-cp", out] + args)
            a = base[rel, what]
            if a[0] == "timeout" or a[0] not in (0, 1, 3) or (what == "programs" and a[0] != 0): raise d.Broken(f"the original programs do not run: {a[0]} {a[2][-800:]}")
            b = go(java + ["-cp", dst] + args)
            run.evals += len(args)
            run.stats["lines_compared"] = run.stats.get("lines_compared", 0) + len(a[1].splitlines()) + len(a[2].splitlines())
            run.stats["program_runs"] = run.stats.get("program_runs", 0) + len(args)
            for l in a[1].splitlines(): run.distinct.add(int.from_bytes(hashlib.blake2b(l, digest_size=8).digest(), "big"))
            x = differ(a, b)
            if x: run.viol.append((f"java/{rel}/{what}", f"rewritten ({mode}) programs compiled for {rel}, {what}: {x}", java + ["-cp", "<rewritten classes>"] + args))
    run.samples.append("random program: " + g.cls("Sample", False)[:700])
    run.samples.append("output: " + base.get(("15", "programs"), (0, b"", b""))[1].decode(errors="replace")[:600])
    verified(run, d, binary, src)
    odd(run, d, binary)
    module(run, d, binary, src)
    compiler(run, d, binary, dirs["15"], src)

def verified(run, d, binary, src):
    """Classes of version 49 need no stack maps, so the JVM verifies the rewritten ones by inferring types itself."""
    s = os.path.join(run.work, "old"); os.makedirs(s)
    g = Gen(run.seed * 1000 + 71, old=True)
    fixed = ["Main", "Flow", "Consts", "Old"]
    fs = [f"{src}/progs/{x}.java" for x in fixed]
    rand = [f"V{i}" for i in range(300 if run.thorough else 40)]
    for i, x in enumerate(rand): fs.append(f"{s}/{x}.java"); open(fs[-1], "w").write(g.cls(x, i % 5 == 0))
    out = s + "-c"; os.makedirs(out)
    for _ in range(3):
        rc, o, e = go(["javac", "-J-Xss64m", "-encoding", "UTF-8", "--release", "7", "-g", "-nowarn", "-Xlint:none", "-d", out] + fs)
        bad = set(re.findall(r"/(V\d+)\.java:\d+: error", (o + e).decode(errors="replace")))
        if rc == 0 or not bad: break
        run.stats["programs_not_compiled"] = run.stats.get("programs_not_compiled", 0) + len(bad)
        fs = [f for f in fs if os.path.basename(f)[:-5] not in bad]
    if rc != 0: raise d.Broken(f"javac for version 49: {rc} {(o + e).decode(errors='replace')[-2000:]}")
    for f in glob.glob(out + "/progs/*.class"):
        b = bytearray(open(f, "rb").read()); b[4:8] = b"\0\0\0\x31"; open(f, "wb").write(b)
    args = ["progs.Main"] + [x for x in fixed[1:] + rand if os.path.exists(f"{out}/progs/{x}.class")]
    java = ["java", "-ea", "-Xverify:all", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"]
    a = go(java + ["-cp", out] + args)
    if a[0] != 0: raise d.Broken(f"the original programs do not run verified: {a[0]} {a[2][-800:]}")
    for mode in ("once", "twice"):
        bad = rewrite(run, d, binary, out, s + mode, mode)
        for b in bad[:3]: run.viol.append(("java/verified", b, ["rewriting a class of version 49"]))
        if bad: continue
        b = go(java + ["-cp", s + mode] + args)
        run.evals += len(args)
        run.stats["verified_program_runs"] = run.stats.get("verified_program_runs", 0) + len(args)
        run.stats["lines_compared"] += len(a[1].splitlines())
        for l in a[1].splitlines(): run.distinct.add(int.from_bytes(hashlib.blake2b(l, digest_size=8).digest(), "big"))
        x = differ(a, b)
        if x: run.viol.append(("java/verified", f"rewritten ({mode}) programs of version 49, verified by the JVM: {x}", java + ["-cp", "<rewritten classes>"] + args))

def odd(run, d, binary):
    """Verifiable classes made of instructions in arrangements no compiler emits (reference encoder), run before and after."""
    base = os.path.join(run.work, "odd"); drive = base + "/drive"; os.makedirs(drive)
    rc, o, e = go(["javac", "-encoding", "UTF-8", "--release", "8", "-nowarn", "-Xlint:none", "-d", drive, os.path.join(HERE, "java/drive/Drive.java")])
    if rc != 0: raise d.Broken(f"javac of the driver: {(o + e).decode(errors='replace')[-1500:]}")
    n = 6000 if run.thorough else 500
    from concurrent.futures import ThreadPoolExecutor
    for kind, pre, how in (("old", "BO", ["-Xverify:all"]), ("new", "BN", NOVERIFY)):
        src = f"{base}/{kind}"
        rc, o, e = go([binary, "emit", "--dir", src, "--n", str(n), "--seed", str(run.seed), "--kind", kind] + run.dict)
        if rc != 0: raise d.Broken(f"generating classes: {rc} {e[-800:]}")
        dirs = {"": src}
        for mode in ("once", "twice"):
            bad = rewrite(run, d, binary, src, src + mode, mode)
            for b in bad[:3]: run.viol.append(("java/odd", b, ["rewriting a generated class"]))
            if not bad: dirs[mode] = src + mode
        java = ["java", "-Xss4m", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"] + how
        step = n // 2 if not run.thorough else 500
        jobs = [(m, a) for a in range(0, n, step) for m in dirs]
        with ThreadPoolExecutor(6) as ex: res = dict(zip(jobs, ex.map(lambda j: go(java + ["-cp", dirs[j[0]] + ":" + drive, "progs.Drive", "x", f"{pre}:{j[1]}:{min(j[1] + step, n)}"]), jobs)))
        for (m, at), b in res.items():
            a = res["", at]
            if m == "":
                if a[0] != 0: raise d.Broken(f"the generated classes do not run: {a[0]} {a[2][-800:]}")
                if b" ! " in a[1]: raise d.Broken("a generated class is refused: " + [l for l in a[1].decode(errors="replace").splitlines() if " ! " in l][0])
                continue
            ls = a[1].splitlines()
            run.evals += len(ls)
            run.stats["generated_class_results_compared"] = run.stats.get("generated_class_results_compared", 0) + len(ls)
            run.stats["generated_classes_ended_by_an_exception"] = run.stats.get("generated_classes_ended_by_an_exception", 0) + sum(b"Exception@" in l for l in ls)
            for l in ls: run.distinct.add(int.from_bytes(hashlib.blake2b(l, digest_size=8).digest(), "big"))
            x = differ(a, b)
            if x: run.viol.append((f"java/odd/{kind}", f"generated classes ({kind}), rewritten ({m}): {x}", [binary, "emit", "--dir", "<dir>", "--n", str(n), "--seed", str(run.seed), "--kind", kind] + run.dict))

def module(run, d, binary, src):
    """A module: its descriptor decides what can be reached."""
    s = os.path.join(run.work, "mods"); os.makedirs(s + "/a/p/api"); os.makedirs(s + "/a/p/hid"); os.makedirs(s + "/b/q")
    w = lambda p, t: open(s + "/" + p, "w").write(t)
    w("a/module-info.java", "@Deprecated module m.a { requires transitive java.logging; requires static java.sql; exports p.api; exports p.hid to m.b; opens p.hid to m.b, m.c; uses java.lang.Runnable; provides java.util.function.Supplier with p.hid.Sup; }")
    w("a/p/api/Api.java", "package p.api; public class Api { public static String hi() { return \"hi \" + p.hid.Sup.class.getModule(); } }")
    w("a/p/hid/Sup.java", "package p.hid; public class Sup implements java.util.function.Supplier<String> { private int x = 5; public String get() { return \"supplied\"; } }")
    w("b/module-info.java", "open module m.b { requires m.a; uses java.util.function.Supplier; exports q; }")
    w("b/q/Main.java", "package q; import java.util.*; public class Main { public static void main(String[] a) throws Exception { System.out.println(p.api.Api.hi()); for (Object s : ServiceLoader.load(java.util.function.Supplier.class)) System.out.println(((java.util.function.Supplier<?>) s).get()); var f = Class.forName(\"p.hid.Sup\").getDeclaredField(\"x\"); f.setAccessible(true); System.out.println(f.get(new p.hid.Sup())); for (String m : new String[] { \"m.a\", \"m.b\" }) { var x = ModuleLayer.boot().findModule(m).get().getDescriptor(); System.out.println(x.name() + x.isOpen() + x.version() + x.mainClass() + new TreeSet<>(x.modifiers()) + new TreeSet<>(x.uses()) + new TreeSet<>(x.packages()) + Arrays.toString(ModuleLayer.boot().findModule(m).get().getAnnotations())); for (var r : new TreeSet<>(x.requires())) System.out.println(\"r\" + r.name() + new TreeSet<>(r.modifiers()) + r.compiledVersion()); for (var r : new TreeSet<>(x.exports())) System.out.println(\"e\" + r.source() + new TreeSet<>(r.modifiers()) + new TreeSet<>(r.targets())); for (var r : new TreeSet<>(x.opens())) System.out.println(\"o\" + r.source() + new TreeSet<>(r.modifiers()) + new TreeSet<>(r.targets())); for (var r : new TreeSet<>(x.provides())) System.out.println(\"p\" + r.service() + r.providers()); } System.out.println(java.util.logging.Level.INFO); try { Class.forName(\"java.sql.Driver\"); System.out.println(\"sql\"); } catch (ClassNotFoundException e) { System.out.println(\"no sql\"); } } }")
    out = s + "-c"
    rc, o, e = go(["javac", "-encoding", "UTF-8", "--release", "15", "-g", "-nowarn", "-Xlint:none", "--module-version", "1.2.3-x", "-d", out + "/m.a"] + glob.glob(s + "/a/**/*.java", recursive=True))
    if rc == 0: rc, o, e = go(["javac", "-encoding", "UTF-8", "--release", "15", "-g", "-nowarn", "-Xlint:none", "-p", out + "/m.a", "-d", out + "/m.b"] + glob.glob(s + "/b/**/*.java", recursive=True))
    if rc != 0: raise d.Broken(f"javac of modules: {(o + e).decode(errors='replace')[-1500:]}")
    bad = rewrite(run, d, binary, out, out + "-r", "once")
    for b in bad[:3]: run.viol.append(("java/module", b, ["rewriting a module"]))
    if bad: return
    cmd = lambda p: go(["java"] + NOVERIFY + ["-p", p + "/m.a:" + p + "/m.b", "-m", "m.b/q.Main"])
    a, b = cmd(out), cmd(out + "-r")
    if a[0] != 0: raise d.Broken(f"the modules do not run: {a[2][-800:]}")
    run.evals += 1
    run.stats["program_runs"] += 1
    x = differ(a, b)
    if x: run.viol.append(("java/module", f"rewritten modules: {x}", ["java -p <rewritten> -m m.b/q.Main"]))

def compiler(run, d, binary, classes, src):
    """The Java compiler itself, rewritten, compiles the programs to the same files."""
    if not run.thorough: return
    import zipfile
    jm = glob.glob("/usr/lib/jvm/*/jmods/jdk.compiler.jmod")
    if not jm: run.notes.append("no jdk.compiler.jmod here"); return
    orig = os.path.join(run.work, "jc"); k = 0
    z = zipfile.ZipFile(jm[0])
    for e in z.namelist():
        if e.startswith("classes/") and e.endswith(".class") and not e.endswith("module-info.class"):
            b = bytearray(z.read(e))
            if b[6:8] > b"\0\x3b": b[4:8] = b"\0\0\0\x3b"
            p = os.path.join(orig, e[8:]); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "wb").write(b); k += 1
    bad = rewrite(run, d, binary, orig, orig + "-r", "once")
    for b in bad[:3]: run.viol.append(("java/compiler", b, ["rewriting jdk.compiler"]))
    if bad: return
    def comp(patch, out):
        os.makedirs(out)
        r = go(["javac", "-J-Xss64m"] + ["-J" + x for x in NOVERIFY] + ["-J--patch-module=jdk.compiler=" + patch, "-encoding", "UTF-8", "--release", "15", "-g", "-parameters", "-Xlint:all", "-d", out] + sorted(glob.glob(src + "/progs/*.java")), t=600)
        h = {}
        for root, _, fs in os.walk(out):
            for f in fs: h[os.path.relpath(os.path.join(root, f), out)] = hashlib.sha256(open(os.path.join(root, f), "rb").read()).hexdigest()
        return r, h
    (a, ha), (b, hb) = comp(orig, orig + "-o1"), comp(orig + "-r", orig + "-o2")
    if a[0] != 0: run.notes.append(f"the compiler with lowered class versions does not run here: {a[2][-300:]}"); return
    run.stats["compiler_classes"] = k
    run.stats["files_compiled_by_the_rewritten_compiler"] = len(hb)
    run.evals += len(ha)
    x = differ(a, b) or ("classes differ: " + ", ".join(sorted(f for f in set(ha) | set(hb) if ha.get(f) != hb.get(f))[:5]) if ha != hb else None)
    if x: run.viol.append(("java/compiler", f"the rewritten compiler behaves differently: {x}", ["javac -J--patch-module=jdk.compiler=<rewritten>"]))
