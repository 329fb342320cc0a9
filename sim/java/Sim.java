import com.qualcomm.qti.qms.api.mink.IMinkObject;
import com.qualcomm.qti.qms.api.mink.IMinkObject.InvokeException;
import com.qualcomm.qti.qms.api.mink.MinkProxy;
import java.io.*;
import java.lang.reflect.*;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;
import javax.tools.*;

/**
 * Deterministic simulator for generated Java proxies and skeletons: clients,
 * servers and their objects are tasks of one seeded scheduler, the transport
 * between them loses, duplicates, delays and reorders messages and crashes
 * nodes.  Every envelope and value is compared with the model of the program
 * (world.jdesc), which is independent of the compiler.
 *
 * Commands on standard input:
 *   run DIR SEED RUNS KEEP NOFAULT TRACE PROP   (KEEP "*" or a,b,..; NOFAULT "-" or a,b; TRACE "-" or a file)
 */
public class Sim {
    // ------------------------------------------------------------ random --
    static final class Rng {
        long s;

        Rng(long seed, long salt) {
            s = seed * 0x9E3779B97F4A7C15L ^ salt * 0xD1B54A32D192ED03L;
            next();
            next();
        }

        long next() {
            long z = (s += 0x9E3779B97F4A7C15L);
            z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
            z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
            return z ^ (z >>> 31);
        }

        int below(int n) {
            return (int) Long.remainderUnsigned(next(), n);
        }

        boolean chance(double p) {
            return (next() >>> 11) * 0x1.0p-53 < p;
        }
    }

    // ------------------------------------------------------------- model --
    static final List<String> PRIMS = List.of("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64");
    static final int[] SIZE = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8};

    static final class FieldT {
        String name;
        int prim = -1, count, size;
        StructT st;
        Field f;
    }

    static final class StructT {
        String name, file;
        int size;
        FieldT[] fs;
        Class<?> cls;
        Constructor<?> make;
    }

    static final class ParamT {
        String name, kind;
        boolean out;
        int prim = -1, count, size;
        StructT st;

        boolean fixed() {
            return kind.equals("prim") || kind.equals("struct");
        }

        boolean var() {
            return kind.equals("buffer") || kind.equals("prims") || kind.equals("structs");
        }
    }

    static final class MethT {
        String name;
        int op, idx;
        boolean optional;
        IfaceT decl;
        ParamT[] ps;
        int nbi, nbo, noi, noo;
        int[] bi, bo;
        Method m;
        /** Data parameters of a direction in wire order, -1 stands for the bundle. */
        int[] in, out;
    }

    static final class IfaceT {
        String name;
        int idx;
        IfaceT base;
        MethT[] ms;
        List<String> errs = new ArrayList<>();
        List<Integer> errv = new ArrayList<>();
        Class<?> itf, mink, proxy;
        Constructor<?> mkMink, mkProxy;
    }

    static final class World {
        StructT[] structs;
        IfaceT[] ifs;
        String dir;
        URLClassLoader loader;
        String buildError;
        List<String[]> constantErrors = new ArrayList<>();
    }

    static World world;

    static World load(String dir) throws Exception {
        World w = new World();
        w.dir = dir;
        List<StructT> ss = new ArrayList<>();
        List<IfaceT> is = new ArrayList<>();
        Iterator<String> it = Files.readAllLines(Path.of(dir, "world.jdesc")).iterator();
        StructT s = null;
        IfaceT i = null;
        MethT m = null;
        List<FieldT> fs = new ArrayList<>();
        int mi = 0, pi = 0;
        while (it.hasNext()) {
            String[] x = it.next().split(" ");
            switch (x[0]) {
                case "struct":
                    s = new StructT();
                    s.name = x[1];
                    s.file = x[2];
                    s.size = Integer.parseInt(x[3]);
                    s.fs = new FieldT[Integer.parseInt(x[4])];
                    pi = 0;
                    ss.add(s);
                    break;
                case "f": {
                    FieldT f = new FieldT();
                    f.name = x[1];
                    if (x[2].equals("prim")) {
                        f.prim = PRIMS.indexOf(x[3]);
                        f.size = SIZE[f.prim];
                    } else {
                        f.st = ss.get(Integer.parseInt(x[3]));
                        f.size = f.st.size;
                    }
                    f.count = Integer.parseInt(x[4]);
                    s.fs[pi++] = f;
                    break;
                }
                case "iface":
                    i = new IfaceT();
                    i.idx = is.size();
                    i.name = x[1];
                    i.base = x[2].equals("-1") ? null : is.get(Integer.parseInt(x[2]));
                    i.ms = new MethT[Integer.parseInt(x[3])];
                    mi = 0;
                    is.add(i);
                    break;
                case "err":
                    i.errs.add(x[1]);
                    i.errv.add(Integer.parseInt(x[2]));
                    break;
                case "meth":
                    m = new MethT();
                    m.name = x[1];
                    m.op = Integer.parseInt(x[2]);
                    m.optional = x[3].equals("1");
                    for (IfaceT d : is) if (d.name.equals(x[4])) m.decl = d;
                    m.ps = new ParamT[Integer.parseInt(x[5])];
                    m.nbi = Integer.parseInt(x[6]);
                    m.nbo = Integer.parseInt(x[7]);
                    m.noi = Integer.parseInt(x[8]);
                    m.noo = Integer.parseInt(x[9]);
                    m.idx = mi;
                    i.ms[mi++] = m;
                    pi = 0;
                    break;
                case "p": {
                    ParamT p = new ParamT();
                    p.out = x[1].equals("o");
                    p.kind = x[2];
                    p.count = Integer.parseInt(x[4]);
                    p.name = x[5];
                    if (p.kind.startsWith("prim")) {
                        p.prim = PRIMS.indexOf(x[3]);
                        p.size = SIZE[p.prim];
                    } else if (p.kind.startsWith("struct")) {
                        p.st = ss.get(Integer.parseInt(x[3]));
                        p.size = p.st.size;
                    } else {
                        p.size = 1;
                    }
                    m.ps[pi++] = p;
                    break;
                }
                case "bi":
                case "bo": {
                    int[] b = new int[x.length - 1];
                    for (int k = 0; k < b.length; k++) b[k] = Integer.parseInt(x[k + 1]);
                    if (x[0].equals("bi")) m.bi = b;
                    else m.bo = b;
                    if (x[0].equals("bo")) {
                        m.in = wire(m, false, m.bi);
                        m.out = wire(m, true, m.bo);
                        if (m.in.length != m.nbi || m.out.length != m.nbo) throw new IllegalStateException("bad model");
                    }
                    break;
                }
                default:
            }
        }
        w.structs = ss.toArray(new StructT[0]);
        w.ifs = is.toArray(new IfaceT[0]);
        compile(w);
        if (w.buildError == null) bind(w);
        return w;
    }

    static int[] wire(MethT m, boolean out, int[] bundle) {
        List<Integer> r = new ArrayList<>();
        if (bundle.length > 0) r.add(-1);
        for (int k = 0; k < m.ps.length; k++) {
            final int kk = k;
            if (m.ps[k].out != out || m.ps[k].kind.startsWith("obj") || Arrays.stream(bundle).anyMatch(b -> b == kk)) continue;
            r.add(k);
        }
        return r.stream().mapToInt(Integer::intValue).toArray();
    }

    static void compile(World w) throws Exception {
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
        Path out = Path.of(w.dir, "classes");
        Files.createDirectories(out);
        try (StandardJavaFileManager fm = jc.getStandardFileManager(diag, null, null)) {
            List<File> src = new ArrayList<>();
            File[] all = new File(w.dir, "java").listFiles();
            Arrays.sort(all);
            for (File f : all) if (f.getName().endsWith(".java")) src.add(f);
            boolean ok = jc.getTask(null, fm, diag, List.of("-proc:none", "-nowarn", "-g:none", "-cp", System.getProperty("java.class.path"), "-d", out.toString()), null,
                fm.getJavaFileObjectsFromFiles(src)).call();
            if (!ok) {
                StringBuilder b = new StringBuilder();
                for (Diagnostic<? extends JavaFileObject> d : diag.getDiagnostics()) {
                    if (d.getKind() != Diagnostic.Kind.ERROR) continue;
                    b.append(d.getSource() == null ? "" : new File(d.getSource().getName()).getName()).append(":").append(d.getLineNumber()).append(": ").append(d.getMessage(Locale.ROOT)).append("; ");
                    if (b.length() > 800) break;
                }
                w.buildError = b.toString();
            }
        }
    }

    static void bind(World w) throws Exception {
        w.loader = new URLClassLoader(new URL[] {Path.of(w.dir, "classes").toUri().toURL()}, Sim.class.getClassLoader());
        String pk = "com.qualcomm.qti.mink.";
        try {
            for (StructT s : w.structs) {
                s.cls = w.loader.loadClass(pk + s.file + "$" + s.name);
                s.make = s.cls.getDeclaredConstructor();
                s.make.setAccessible(true);
                for (FieldT f : s.fs) {
                    f.f = s.cls.getDeclaredField(f.name);
                    f.f.setAccessible(true);
                }
            }
            for (IfaceT i : w.ifs) {
                i.itf = w.loader.loadClass(pk + i.name);
                i.mink = w.loader.loadClass(pk + i.name + "$MinkObject");
                i.proxy = w.loader.loadClass(pk + i.name + "$Proxy");
                i.mkMink = i.mink.getDeclaredConstructor(i.itf);
                i.mkProxy = i.proxy.getDeclaredConstructor(IMinkObject.class);
                i.mkMink.setAccessible(true);
                i.mkProxy.setAccessible(true);
                for (MethT m : i.ms) {
                    for (Method q : m.decl.itf.getDeclaredMethods()) if (q.getName().equals(m.name)) m.m = q;
                    if (m.m == null) throw new NoSuchMethodException(m.decl.name + "." + m.name);
                    m.m.setAccessible(true);
                    constant(w, i, m.decl == i, i.name + "_OP_" + m.name, m.op, "C07", "op-code");
                }
                for (int k = 0; k < i.errs.size(); k++) constant(w, i, i.base == null || k >= i.base.errs.size(), i.name + "_" + i.errs.get(k).toUpperCase(Locale.ROOT), i.errv.get(k), "C08", "error code");
            }
        } catch (ReflectiveOperationException | LinkageError e) {
            w.buildError = "generated classes lack what the program declares: " + e;
        }
    }

    static void constant(World w, IfaceT i, boolean own, String name, int want, String tag, String what) throws ReflectiveOperationException {
        Field f;
        try {
            f = i.itf.getField(name);
        } catch (NoSuchFieldException e) {
            // ancestors' constants may be left to the ancestors
            if (own) w.constantErrors.add(new String[] {tag, what + " is not declared", name});
            return;
        }
        f.setAccessible(true);
        int v = f.getInt(null);
        if (v != want) w.constantErrors.add(new String[] {tag, what + " differs from the declaration order", name + " is " + v + ", expected " + want});
    }

    // ------------------------------------------------------------ values --
    // prim: Long (bits); struct: Object[] with Object or Object[] per field;
    // buffer: byte[]; prims: long[]; structs: Object[]; obj: Integer; objs: int[]
    static long genPrim(Rng r, int prim) {
        int bits = SIZE[prim] * 8;
        if (prim == 8) {
            float f = switch (r.below(8)) {
                case 0 -> 0f;
                case 1 -> -0f;
                case 2 -> Float.POSITIVE_INFINITY;
                case 3 -> Float.MIN_VALUE;
                case 4 -> -Float.MAX_VALUE;
                case 5 -> Float.NaN;
                default -> Float.intBitsToFloat((int) r.next());
            };
            return (Float.isNaN(f) ? 0x7fc00000 : Float.floatToRawIntBits(f)) & 0xffffffffL;
        }
        if (prim == 9) {
            double d = switch (r.below(8)) {
                case 0 -> 0d;
                case 1 -> -0d;
                case 2 -> Double.NEGATIVE_INFINITY;
                case 3 -> Double.MIN_VALUE;
                case 4 -> Double.MAX_VALUE;
                case 5 -> Double.NaN;
                default -> Double.longBitsToDouble(r.next());
            };
            return Double.isNaN(d) ? 0x7ff8000000000000L : Double.doubleToRawLongBits(d);
        }
        long mask = bits == 64 ? -1L : (1L << bits) - 1;
        long v = switch (r.below(8)) {
            case 0 -> 0;
            case 1 -> -1L;
            case 2 -> 1L << (bits - 1);
            case 3 -> (1L << (bits - 1)) - 1;
            case 4 -> 1;
            default -> r.next();
        };
        return v & mask;
    }

    static Object genStruct(Rng r, StructT s) {
        Object[] v = new Object[s.fs.length];
        for (int k = 0; k < v.length; k++) {
            FieldT f = s.fs[k];
            Object[] a = new Object[f.count];
            for (int j = 0; j < f.count; j++) a[j] = f.st == null ? (Object) genPrim(r, f.prim) : genStruct(r, f.st);
            v[k] = f.count == 1 ? a[0] : a;
        }
        return v;
    }

    static int genLen(Rng r) {
        return switch (r.below(8)) {
            case 0 -> 0;
            case 1 -> 1;
            case 2 -> 2;
            case 3 -> 3 + r.below(60);
            default -> r.below(9);
        };
    }

    static Object genData(Rng r, ParamT p, int len) {
        switch (p.kind) {
            case "prim":
                return genPrim(r, p.prim);
            case "struct":
                return genStruct(r, p.st);
            case "buffer": {
                byte[] b = new byte[len];
                for (int k = 0; k < len; k++) b[k] = (byte) r.next();
                return b;
            }
            case "prims": {
                long[] b = new long[len];
                for (int k = 0; k < len; k++) b[k] = genPrim(r, p.prim);
                return b;
            }
            default: {
                Object[] b = new Object[len];
                for (int k = 0; k < len; k++) b[k] = genStruct(r, p.st);
                return b;
            }
        }
    }

    static void putPrim(ByteArrayOutputStream o, int prim, long v) {
        for (int k = 0; k < SIZE[prim]; k++) o.write((int) (v >>> (8 * k)));
    }

    static void putStruct(ByteArrayOutputStream o, StructT s, Object v) {
        Object[] a = (Object[]) v;
        for (int k = 0; k < a.length; k++) {
            FieldT f = s.fs[k];
            Object[] e = f.count == 1 ? new Object[] {a[k]} : (Object[]) a[k];
            for (Object x : e) {
                if (f.st == null) putPrim(o, f.prim, (Long) x);
                else putStruct(o, f.st, x);
            }
        }
    }

    static void put(ByteArrayOutputStream o, ParamT p, Object v) {
        switch (p.kind) {
            case "prim":
                putPrim(o, p.prim, (Long) v);
                break;
            case "struct":
                putStruct(o, p.st, v);
                break;
            case "buffer":
                o.writeBytes((byte[]) v);
                break;
            case "prims":
                for (long x : (long[]) v) putPrim(o, p.prim, x);
                break;
            default:
                for (Object x : (Object[]) v) putStruct(o, p.st, x);
        }
    }

    static byte[] image(MethT m, int slot, boolean out, Object[] vals) {
        ByteArrayOutputStream o = new ByteArrayOutputStream();
        int w = (out ? m.out : m.in)[slot];
        if (w >= 0) put(o, m.ps[w], vals[w]);
        else for (int k : out ? m.bo : m.bi) put(o, m.ps[k], vals[k]);
        return o.toByteArray();
    }

    static Object box(int prim, long v) {
        return switch (prim) {
            case 0, 4 -> (Object) (byte) v;
            case 1, 5 -> (Object) (char) v;
            case 2, 6 -> (Object) (int) v;
            case 3, 7 -> (Object) v;
            case 8 -> (Object) Float.intBitsToFloat((int) v);
            default -> (Object) Double.longBitsToDouble(v);
        };
    }

    static long unbox(int prim, Object o) {
        return switch (prim) {
            case 0, 4 -> ((Byte) o) & 0xffL;
            case 1, 5 -> (Character) o;
            case 2, 6 -> ((Integer) o) & 0xffffffffL;
            case 3, 7 -> (Long) o;
            case 8 -> Float.floatToRawIntBits((Float) o) & 0xffffffffL;
            default -> Double.doubleToRawLongBits((Double) o);
        };
    }

    static Class<?> primClass(int prim) {
        return switch (prim) {
            case 0, 4 -> byte.class;
            case 1, 5 -> char.class;
            case 2, 6 -> int.class;
            case 3, 7 -> long.class;
            case 8 -> float.class;
            default -> double.class;
        };
    }

    static Object toStruct(StructT s, Object v) throws ReflectiveOperationException {
        Object o = s.make.newInstance();
        fillStruct(s, o, v);
        return o;
    }

    /** Fills what the class allocates by itself, as its users do. */
    static void fillStruct(StructT s, Object o, Object v) throws ReflectiveOperationException {
        Object[] a = (Object[]) v;
        for (int k = 0; k < a.length; k++) {
            FieldT f = s.fs[k];
            if (f.count == 1) {
                if (f.st == null) f.f.set(o, box(f.prim, (Long) a[k]));
                else if (f.f.get(o) == null) f.f.set(o, toStruct(f.st, a[k]));
                else fillStruct(f.st, f.f.get(o), a[k]);
                continue;
            }
            Object arr = f.f.get(o);
            for (int j = 0; j < f.count; j++) {
                Object x = ((Object[]) a[k])[j];
                if (f.st == null) Array.set(arr, j, box(f.prim, (Long) x));
                else if (Array.get(arr, j) == null) Array.set(arr, j, toStruct(f.st, x));
                else fillStruct(f.st, Array.get(arr, j), x);
            }
        }
    }

    static Object toJava(ParamT p, Object v) throws ReflectiveOperationException {
        switch (p.kind) {
            case "prim":
                return box(p.prim, (Long) v);
            case "struct":
                return toStruct(p.st, v);
            case "buffer":
                return ((byte[]) v).clone();
            case "prims": {
                long[] a = (long[]) v;
                Object r = Array.newInstance(primClass(p.prim), a.length);
                for (int k = 0; k < a.length; k++) Array.set(r, k, box(p.prim, a[k]));
                return r;
            }
            default: {
                Object[] a = (Object[]) v;
                Object r = Array.newInstance(p.st.cls, a.length);
                for (int k = 0; k < a.length; k++) Array.set(r, k, toStruct(p.st, a[k]));
                return r;
            }
        }
    }

    /** Where two values differ, or null. */
    static String diffStruct(StructT s, Object v, Object o, String at) throws ReflectiveOperationException {
        if (o == null) return at + " is null";
        Object[] a = (Object[]) v;
        for (int k = 0; k < a.length; k++) {
            FieldT f = s.fs[k];
            Object[] e = f.count == 1 ? new Object[] {a[k]} : (Object[]) a[k];
            Object fo = f.f.get(o);
            if (fo == null) return at + "." + f.name + " is null";
            if (f.count > 1 && Array.getLength(fo) != f.count) return at + "." + f.name + " has " + Array.getLength(fo) + " elements";
            for (int j = 0; j < e.length; j++) {
                Object x = f.count == 1 ? fo : Array.get(fo, j);
                String n = at + "." + f.name + (f.count == 1 ? "" : "[" + j + "]");
                if (f.st == null) {
                    if (unbox(f.prim, x) != (Long) e[j]) return n + " is " + hex(unbox(f.prim, x)) + ", expected " + hex((Long) e[j]);
                } else {
                    String d = diffStruct(f.st, e[j], x, n);
                    if (d != null) return d;
                }
            }
        }
        return null;
    }

    static String diff(ParamT p, Object v, Object o) throws ReflectiveOperationException {
        if (o == null) return p.name + " is null";
        switch (p.kind) {
            case "prim":
                return unbox(p.prim, o) == (Long) v ? null : p.name + " is " + hex(unbox(p.prim, o)) + ", expected " + hex((Long) v);
            case "struct":
                return diffStruct(p.st, v, o, p.name);
            default: {
                int n = Array.getLength(v);
                if (Array.getLength(o) != n) return p.name + " has " + Array.getLength(o) + " elements, expected " + n;
                for (int k = 0; k < n; k++) {
                    Object x = Array.get(o, k);
                    if (p.kind.equals("structs")) {
                        String d = diffStruct(p.st, ((Object[]) v)[k], x, p.name + "[" + k + "]");
                        if (d != null) return d;
                    } else {
                        long want = p.kind.equals("buffer") ? ((byte[]) v)[k] & 0xffL : ((long[]) v)[k];
                        long got = p.kind.equals("buffer") ? (Byte) x & 0xffL : unbox(p.prim, x);
                        if (want != got) return p.name + "[" + k + "] is " + hex(got) + ", expected " + hex(want);
                    }
                }
                return null;
            }
        }
    }

    static String hex(long v) {
        return "0x" + Long.toHexString(v);
    }

    static String hex(byte[] b) {
        StringBuilder s = new StringBuilder();
        for (int k = 0; k < Math.min(48, b.length); k++) s.append(String.format("%02x", b[k]));
        return s + (b.length > 48 ? ".. (" + b.length + " bytes)" : "");
    }

    // --------------------------------------------------------- violations --
    static class Bad extends Error {
        final String kind, tag;

        Bad(String tag, String kind, String detail) {
            super(detail, null, false, false);
            this.kind = kind;
            this.tag = tag;
        }
    }

    static final class Abort extends Error {
        Abort() {
            super("abort", null, false, false);
        }
    }

    // ----------------------------------------------------------- threads --
    static final class Worker extends Thread {
        final Semaphore go = new Semaphore(0);
        Task task;

        Worker() {
            setDaemon(true);
            start();
        }

        public void run() {
            for (;;) {
                go.acquireUninterruptibly();
                Task t = task;
                try {
                    if (t.sim.aborting) throw new Abort();
                    t.body.run();
                } catch (Abort e) {
                    // the run is over
                } catch (Bad e) {
                    t.sim.bad(e);
                } catch (Throwable e) {
                    t.sim.bad(new Bad("harness", "unexpected exception in the simulator", stack(e)));
                }
                t.done = true;
                main.release();
            }
        }
    }

    static String stack(Throwable e) {
        StringBuilder b = new StringBuilder(e.toString());
        for (StackTraceElement x : e.getStackTrace()) {
            b.append(" < ").append(x);
            if (b.length() > 700) break;
        }
        return b.toString();
    }

    static final Semaphore main = new Semaphore(0);
    static final ArrayDeque<Worker> idle = new ArrayDeque<>();

    static final class Task {
        Run sim;
        int id, node, epoch;
        Runnable body;
        Worker w;
        boolean done, waiting;
        final ArrayDeque<Call> calls = new ArrayDeque<>();
        final ArrayDeque<Exec> execs = new ArrayDeque<>();
        Rng r;
    }

    // -------------------------------------------------------------- a run --
    static final class Obj {
        int id, node;
        IfaceT iface;
        boolean[] provides;
        IMinkObject skel;
    }

    /** A call as its caller knows it. */
    static final class Call {
        int id, caller, op;
        MethT m;
        Obj target;
        Object[] in;
        boolean[] nullIn, nullHolder;
        int[] cap;
        boolean wire, sent, answered;
        Exec result; // the execution the caller's answer comes from
        Reply reply;
        Task waiter;
    }

    /** One execution of a call by a skeleton. */
    static final class Exec {
        Call call;
        int node;
        Object[] out;
        boolean ran, defaulted;
        int code; // thrown by the implementation
    }

    static final Exec NOBODY = new Exec();
    static final Exec MISFIT = new Exec();

    static final class Reply {
        int code;
        byte[][] bo;
        int[] oo;
        Exec from;
    }

    static final class Event implements Comparable<Event> {
        long at, seq;
        Runnable what;

        public int compareTo(Event o) {
            return at != o.at ? Long.compare(at, o.at) : Long.compare(seq, o.seq);
        }
    }

    static final class Ref implements IMinkObject {
        final Run sim;
        final Obj obj;
        final boolean wire;

        Ref(Run s, Obj o, boolean w) {
            sim = s;
            obj = o;
            wire = w;
        }

        public void invoke(int op, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException {
            sim.invoke(this, op, bi, boSizes, bo, oi, oo);
        }

        public void retain() {}

        public void release() {}

        public boolean isNull() {
            return false;
        }
    }

    static final Map<String, Long> faults = new TreeMap<>(), links = new TreeMap<>();
    static final Map<String, Long> count = new TreeMap<>();
    static final Set<Long> digests = new HashSet<>();
    static final Set<String> methodsSeen = new HashSet<>();

    static void tick(Map<String, Long> m, String k) {
        m.merge(k, 1L, Long::sum);
    }

    static final class Run {
        final long seed;
        final Rng sched, net;
        final Set<Integer> keep;
        final Set<String> off;
        final List<String> trace;
        final List<Obj> objs = new ArrayList<>();
        final Map<IMinkObject, Obj> bySkel = new IdentityHashMap<>();
        final List<Task> tasks = new ArrayList<>();
        final Map<String, Object> proxies = new HashMap<>();
        final PriorityQueue<Event> queue = new PriorityQueue<>();
        final boolean[] up;
        final int[] epoch;
        final int nodes;
        long now, seq, digest, steps;
        boolean aborting;
        Bad bad;
        Task cur;
        int nextCall, nextTask, clientsLeft, ncalls;
        final double pDropReq, pDropRep, pDup, pSlow, pErr, pNest, pYield;

        Run(long seed, Set<Integer> keep, Set<String> off, boolean tracing) {
            this.seed = seed;
            this.keep = keep;
            this.off = off;
            trace = tracing ? new ArrayList<>() : null;
            sched = new Rng(seed, 1);
            net = new Rng(seed, 2);
            Rng r = new Rng(seed, 3);
            nodes = 2 + r.below(2);
            up = new boolean[nodes];
            Arrays.fill(up, true);
            epoch = new int[nodes];
            boolean calm = r.chance(.25);
            pDropReq = calm ? 0 : r.chance(.5) ? .12 : 0;
            pDropRep = calm ? 0 : r.chance(.5) ? .12 : 0;
            pDup = calm ? 0 : r.chance(.6) ? .25 : 0;
            pSlow = r.chance(.5) ? .4 : .05;
            pErr = r.chance(.5) ? .15 : 0;
            pNest = r.chance(.5) ? .25 : 0;
            pYield = r.chance(.7) ? .5 : 0;
            int extra = r.below(3);
            for (int k = 0; k < world.ifs.length + extra; k++) {
                Obj o = new Obj();
                o.id = objs.size();
                o.iface = k < world.ifs.length ? world.ifs[k] : world.ifs[r.below(world.ifs.length)];
                o.node = r.below(nodes);
                o.provides = new boolean[o.iface.ms.length];
                for (int j = 0; j < o.provides.length; j++) o.provides[j] = !o.iface.ms[j].optional || r.chance(.6);
                revive(o);
                objs.add(o);
            }
            int nclients = 1 + r.below(3), op = 0;
            int crash = !calm && r.chance(.35) ? 1 + r.below(nodes - 1) : 0;
            for (int c = 0; c < nclients; c++) {
                int n = 1 + r.below(6);
                List<Integer> ops = new ArrayList<>();
                for (int k = 0; k < n; k++, op++) if (keep == null || keep.contains(op)) ops.add(op);
                clientsLeft++;
                spawn(0, () -> {
                    for (int x : ops) client(x);
                    clientsLeft--;
                });
            }
            planned = op;
            if (crash > 0 && fault("crash_restart", true)) {
                long at = 100 + r.below(4000), back = at + 50 + r.below(3000);
                event(at, () -> {
                    note("node " + crash + " crashes");
                    up[crash] = false;
                    epoch[crash]++;
                });
                event(back, () -> {
                    note("node " + crash + " restarts");
                    up[crash] = true;
                    for (Obj o : objs) if (o.node == crash) revive(o);
                });
            }
        }

        final int planned;

        boolean fault(String k, boolean want) {
            if (!want || off.contains(k)) return false;
            tick(faults, k);
            return true;
        }

        void note(String s) {
            digest = (digest ^ s.hashCode()) * 0x100000001b3L + 1;
            if (trace != null) trace.add(now + " " + (cur == null ? "-" : "t" + cur.id) + " " + s);
        }

        void bad(Bad b) {
            if (bad == null) bad = b;
        }

        void event(long delay, Runnable what) {
            Event e = new Event();
            e.at = now + delay;
            e.seq = seq++;
            e.what = what;
            queue.add(e);
        }

        Task spawn(int node, Runnable body) {
            Task t = new Task();
            t.sim = this;
            t.id = nextTask++;
            t.node = node;
            t.epoch = epoch[node];
            t.body = body;
            t.r = new Rng(seed, 1000 + t.id);
            t.w = idle.isEmpty() ? new Worker() : idle.pop();
            t.w.task = t;
            tasks.add(t);
            return t;
        }

        /** Gives the processor back to the scheduler. */
        void pause(boolean wait) {
            Task t = cur;
            t.waiting = wait;
            main.release();
            t.w.go.acquireUninterruptibly();
            if (aborting) throw new Abort();
        }

        /** False if generated code doesn't come back. */
        boolean step(Task t) {
            cur = t;
            t.w.go.release();
            try {
                if (!main.tryAcquire(20, TimeUnit.SECONDS)) return false;
            } catch (InterruptedException e) {
                return false;
            }
            cur = null;
            if (t.done) {
                tasks.remove(t);
                idle.push(t.w);
            }
            return true;
        }

        boolean go() {
            while (bad == null && (clientsLeft > 0 || !queue.isEmpty() || tasks.stream().anyMatch(t -> !t.waiting))) {
                List<Task> ready = new ArrayList<>();
                for (Task t : tasks) if (!t.waiting) ready.add(t);
                int n = ready.size() + (queue.isEmpty() ? 0 : 1);
                if (n == 0) {
                    bad(new Bad("harness", "nothing can run", ""));
                    break;
                }
                if (++steps > 200000) {
                    bad(new Bad("C18", "no progress", "the run does not end within 200000 steps"));
                    break;
                }
                int k = sched.below(n);
                digest = (digest ^ (k + 31L * n)) * 0x100000001b3L;
                if (k < ready.size()) {
                    if (!step(ready.get(k))) {
                        bad(new Bad("C18", "generated code does not return", "no switch within 20 s of real time"));
                        return false;
                    }
                } else {
                    Event e = queue.poll();
                    now = Math.max(now, e.at);
                    e.what.run();
                }
            }
            aborting = true;
            for (Task t : new ArrayList<>(tasks)) if (!step(t)) return false;
            return true;
        }

        // ------------------------------------------------------ objects --
        void revive(Obj o) {
            Object impl = Proxy.newProxyInstance(world.loader, new Class<?>[] {o.iface.itf}, (p, m, a) -> implement(o, p, m, a == null ? new Object[0] : a));
            try {
                o.skel = (IMinkObject) o.iface.mkMink.newInstance(impl);
            } catch (ReflectiveOperationException e) {
                throw new Bad("C18", "the skeleton cannot be created", stack(e));
            }
            bySkel.put(o.skel, o);
        }

        int idOf(IMinkObject o) {
            if (o == null) return -1;
            if (o instanceof Ref) return ((Ref) o).obj.id;
            if (o instanceof MinkProxy) return idOf(MinkProxy.under((MinkProxy) o));
            Obj b = bySkel.get(o);
            return b == null ? -2 : b.id;
        }

        /** A reference to an object for somebody on a node. */
        IMinkObject refTo(int id, int node, Rng r, boolean typed) {
            if (id < 0) return null;
            Obj o = objs.get(id);
            IMinkObject x;
            if (o.node == node && r.chance(.4)) x = o.skel;
            else x = new Ref(this, o, o.node != node || r.chance(.5));
            if (typed && r.chance(.4)) {
                try {
                    x = (IMinkObject) o.iface.mkProxy.newInstance(x);
                } catch (ReflectiveOperationException e) {
                    throw new Bad("C18", "the proxy cannot be created", stack(e));
                }
            }
            return x;
        }

        // ------------------------------------------------------- client --
        void client(int op) {
            Rng r = new Rng(seed, 500000 + op);
            Obj o = objs.get(r.below(objs.size()));
            if (fault("foreign_opcode", r.chance(.06))) foreign(o, r);
            if (fault("malformed_envelope", r.chance(.12))) misfit(objs.get(r.below(objs.size())), r);
            call(o, r, op, 0);
        }

        /** A request for a method neither the interface nor its ancestors have. */
        void foreign(Obj o, Rng r) {
            Set<Integer> mine = new HashSet<>();
            int top = 0;
            for (MethT m : o.iface.ms) {
                mine.add(m.op);
                top = Math.max(top, m.op);
            }
            int op;
            do {
                op = switch (r.below(6)) {
                    case 0 -> top + 1;
                    case 1 -> top + 1 + r.below(64);
                    case 2 -> r.below(0x4000);
                    case 3 -> r.below(top + 1) | 1 << 16 + r.below(16);
                    case 4 -> -1 - r.below(4);
                    default -> (int) r.next();
                };
            } while (mine.contains(op));
            int like = o.iface.ms.length == 0 ? -1 : r.below(o.iface.ms.length);
            int what = op;
            event(1 + r.below(200), () -> {
                if (!up[o.node]) return;
                spawn(o.node, () -> {
                    String w = "op-code " + what + " of " + o.iface.name;
                    note("node " + o.node + " gets " + w);
                    Rng q = cur.r;
                    MethT m = like < 0 ? null : o.iface.ms[like];
                    byte[][] bi = new byte[m == null ? 0 : m.nbi][];
                    for (int k = 0; k < bi.length; k++) bi[k] = new byte[q.below(40)];
                    int[] sz = new int[m == null ? 0 : m.nbo];
                    for (int k = 0; k < sz.length; k++) sz[k] = q.below(40);
                    IMinkObject[] oi = new IMinkObject[m == null ? 0 : m.noi];
                    for (int k = 0; k < oi.length; k++) oi[k] = refTo(q.below(objs.size()), o.node, q, false);
                    int code = 0;
                    cur.execs.push(NOBODY);
                    try {
                        o.skel.invoke(what, bi, sz, new byte[sz.length][], oi, new IMinkObject[m == null ? 0 : m.noo]);
                    } catch (InvokeException e) {
                        code = e.code;
                    } catch (RuntimeException | LinkageError | StackOverflowError e) {
                        throw new Bad("C04", "the skeleton throws " + e.getClass().getSimpleName() + " for a foreign op-code", w + ": " + stack(e));
                    } finally {
                        cur.execs.pop();
                    }
                    if (code < 1 || code > 9) throw new Bad("C04 C07", "the skeleton accepts a foreign op-code", w + ": status " + code);
                    tick(count, "foreign_refused");
                });
            });
        }

        /** Size of a data argument every invocation of the method has to have, or -1. */
        static int fixed(MethT m, boolean out, int slot) {
            int w = (out ? m.out : m.in)[slot], n = 0;
            if (w >= 0) return m.ps[w].kind.equals("prim") || m.ps[w].kind.equals("struct") ? m.ps[w].size : -1;
            for (int k : out ? m.bo : m.bi) n += m.ps[k].size;
            return n;
        }

        static int other(Rng q, int n) {
            int x;
            do {
                x = switch (q.below(6)) {
                    case 0 -> n - 1;
                    case 1 -> n + 1;
                    case 2 -> 0;
                    case 3 -> 2 * n;
                    case 4 -> n + 8;
                    default -> q.below(n + 40);
                };
            } while (x < 0 || x == n);
            return x;
        }

        /** A request whose arguments are not those of its method: it has to be
         *  refused before the implementation. */
        void misfit(Obj o, Rng r) {
            if (o.iface.ms.length == 0) return;
            MethT m = o.iface.ms[r.below(o.iface.ms.length)];
            event(1 + r.below(200), () -> {
                if (!up[o.node]) return;
                spawn(o.node, () -> {
                    Rng q = cur.r;
                    int[] n = {m.nbi, m.nbo, m.noi, m.noo};
                    List<Integer> fi = new ArrayList<>(), fo = new ArrayList<>();
                    for (int k = 0; k < m.nbi; k++) if (fixed(m, false, k) >= 0) fi.add(k);
                    for (int k = 0; k < m.nbo; k++) if (fixed(m, true, k) >= 0) fo.add(k);
                    int badIn = -1, badOut = -1;
                    String what;
                    if (fi.size() + fo.size() > 0 && q.chance(.6)) {
                        int k = q.below(fi.size() + fo.size());
                        if (k < fi.size()) badIn = fi.get(k);
                        else badOut = fo.get(k - fi.size());
                        what = badIn >= 0 ? "size of input " + badIn : "size of output " + badOut;
                    } else {
                        int c = q.below(4);
                        String[] names = {"input buffers", "output buffers", "input objects", "output objects"};
                        int was = n[c];
                        do n[c] = switch (q.below(4)) {
                            case 0 -> was + 1;
                            case 1 -> was - 1;
                            case 2 -> 0;
                            default -> q.below(16);
                        }; while (n[c] < 0 || n[c] == was);
                        what = n[c] + " " + names[c] + " instead of " + was;
                        /* the same total, differently split */
                        int d = q.below(4);
                        if (d != c && n[d] + was - n[c] >= 0 && q.chance(.3)) {
                            n[d] += was - n[c];
                            what += ", " + n[d] + " " + names[d];
                        }
                    }
                    byte[][] bi = n[0] == 0 && q.chance(.5) ? null : new byte[n[0]][];
                    for (int k = 0; k < n[0]; k++) {
                        int z = k < m.nbi ? fixed(m, false, k) : -1;
                        if (k == badIn) z = other(q, z);
                        bi[k] = new byte[z < 0 ? q.below(10) * 8 : z];
                        for (int b = 0; b < bi[k].length; b++) bi[k][b] = (byte) q.next();
                    }
                    int[] sz = n[1] == 0 && q.chance(.5) ? null : new int[n[1]];
                    for (int k = 0; k < n[1]; k++) {
                        int z = k < m.nbo ? fixed(m, true, k) : -1;
                        if (k == badOut) z = other(q, z);
                        sz[k] = z < 0 ? q.below(10) * 8 : z;
                    }
                    byte[][] bo = sz == null ? null : new byte[n[1]][];
                    IMinkObject[] oi = n[2] == 0 && q.chance(.5) ? null : new IMinkObject[n[2]];
                    for (int k = 0; k < n[2]; k++) oi[k] = refTo(q.below(objs.size()), o.node, q, false);
                    IMinkObject[] oo = n[3] == 0 && q.chance(.5) ? null : new IMinkObject[n[3]];
                    String w = o.iface.name + "." + m.name + ": " + what;
                    note("node " + o.node + " gets a malformed envelope of " + w);
                    int code = 0;
                    cur.execs.push(MISFIT);
                    try {
                        o.skel.invoke(m.op, bi, sz, bo, oi, oo);
                    } catch (InvokeException e) {
                        code = e.code;
                    } catch (RuntimeException | LinkageError | StackOverflowError e) {
                        throw new Bad("C04", "the skeleton throws " + e.getClass().getSimpleName() + " for a malformed envelope", w + ": " + stack(e));
                    } finally {
                        cur.execs.pop();
                    }
                    if (code < 1 || code > 9) throw new Bad("C04", "the skeleton accepts a malformed envelope", w + ": status " + code);
                    tick(count, "misfit_refused");
                });
            });
        }

        static String show(Call c) {
            return "call " + c.id + " " + c.target.iface.name + "." + c.m.name;
        }

        void call(Obj o, Rng r, int op, int depth) {
            if (o.iface.ms.length == 0) return;
            Call c = new Call();
            c.id = nextCall++;
            c.op = op;
            c.caller = cur.node;
            c.target = o;
            c.m = o.iface.ms[r.below(o.iface.ms.length)];
            c.wire = o.node != cur.node || r.chance(.6);
            MethT m = c.m;
            int n = m.ps.length;
            c.in = new Object[n];
            c.nullIn = new boolean[n];
            c.nullHolder = new boolean[n];
            c.cap = new int[n];
            boolean skipping = r.chance(.2);
            List<Object> args = new ArrayList<>();
            try {
                for (int k = 0; k < n; k++) {
                    ParamT p = m.ps[k];
                    if (p.kind.equals("obj") || p.kind.equals("objs")) {
                        int[] ids = new int[p.count];
                        if (!p.out) {
                            IMinkObject[] a = new IMinkObject[p.count];
                            for (int j = 0; j < p.count; j++) {
                                ids[j] = r.chance(.2) ? -1 : r.below(objs.size());
                                a[j] = refTo(ids[j], cur.node, r, true);
                            }
                            c.in[k] = ids;
                            args.add(p.kind.equals("obj") ? a[0] : a);
                        } else {
                            c.nullHolder[k] = skipping && r.chance(.4);
                            if (p.kind.equals("obj")) {
                                args.add(c.nullHolder[k] ? null : new IMinkObject[1]);
                            } else {
                                args.add(c.nullHolder[k] ? null : r.chance(.5) ? new IMinkObject[1][p.count] : new IMinkObject[1][]);
                                args.add(p.count);
                            }
                        }
                    } else if (!p.out) {
                        int len = p.var() ? genLen(r) : 0;
                        c.nullIn[k] = p.var() && c.wire && len == 0 && r.chance(.5);
                        c.in[k] = genData(r, p, len);
                        args.add(c.nullIn[k] ? null : toJava(p, c.in[k]));
                    } else {
                        c.nullHolder[k] = skipping && r.chance(.4);
                        c.cap[k] = p.var() ? genLen(r) : 1;
                        Class<?> el = p.kind.equals("buffer") ? byte.class : p.st == null ? primClass(p.prim) : p.st.cls;
                        Object h;
                        if (p.var()) {
                            h = Array.newInstance(el, 1, 0);
                            if (r.chance(.5)) Array.set(h, 0, null);
                        } else {
                            h = Array.newInstance(el, 1);
                            if (p.st != null && r.chance(.6)) Array.set(h, 0, toStruct(p.st, genStruct(r, p.st)));
                        }
                        args.add(c.nullHolder[k] ? null : h);
                        if (p.var()) args.add(c.cap[k]);
                    }
                }
                // any proxy class between the object's and the one that declares the method
                IfaceT via = o.iface;
                while (via != m.decl && r.chance(.5)) via = via.base;
                String key = cur.node + " " + o.id + " " + via.idx + " " + c.wire;
                Object px = r.chance(.7) ? proxies.get(key) : null;
                if (px == null) proxies.put(key, px = via.mkProxy.newInstance(new Ref(this, o, c.wire)));
                else tick(count, "shared_proxies");
                tick(count, "calls");
                tick(links, c.wire ? "wire" : "direct");
                methodsSeen.add(world.dir + "/" + o.iface.idx + "/" + m.idx);
                note(show(c) + (c.wire ? " over the wire" : " directly") + " to node " + o.node);
                cur.calls.push(c);
                int code = 0;
                try {
                    m.m.invoke(px, args.toArray());
                } catch (InvocationTargetException e) {
                    Throwable x = e.getCause();
                    if (x instanceof InvokeException) code = ((InvokeException) x).code;
                    else if (x instanceof Error && !(x instanceof LinkageError || x instanceof StackOverflowError)) throw (Error) x;
                    else throw new Bad("C18", "the proxy throws " + x.getClass().getSimpleName(), show(c) + ": " + stack(x));
                } finally {
                    cur.calls.pop();
                }
                note(show(c) + " ends with " + code);
                if (!c.sent) throw new Bad("C18", "the proxy returns without sending a request", show(c));
                if (c.reply == null) throw new Bad("harness", "no reply recorded", show(c));
                if (code != c.reply.code) throw new Bad("C18", "the proxy changes the status", show(c) + ": " + code + " instead of " + c.reply.code);
                if (code == 0) returned(c, args);
            } catch (ReflectiveOperationException | IllegalArgumentException e) {
                throw new Bad("C18", "generated classes do not have the expected shape", show(c) + ": " + stack(e));
            }
        }

        void returned(Call c, List<Object> args) throws ReflectiveOperationException {
            int a = 0;
            Object[] want = c.reply.from.out;
            for (int k = 0; k < c.m.ps.length; k++) {
                ParamT p = c.m.ps[k];
                Object h = args.get(a++);
                if (p.out && (p.var() || p.kind.equals("objs"))) a++;
                if (!p.out || c.nullHolder[k]) continue;
                String d;
                if (p.kind.startsWith("obj")) {
                    Object got = p.kind.equals("obj") ? h : Array.get(h, 0);
                    d = diffObjs(p, (int[]) want[k], (IMinkObject[]) got);
                } else {
                    d = diff(p, want[k], Array.get(h, 0));
                }
                if (d != null) throw new Bad("C18", "the caller does not get the implementation's output", show(c) + ": " + d);
                tick(count, "outputs");
            }
            tick(count, "answered");
        }

        String diffObjs(ParamT p, int[] want, IMinkObject[] got) {
            if (got == null) return p.name + " is null";
            if (got.length != want.length) return p.name + " has " + got.length + " elements, expected " + want.length;
            for (int j = 0; j < want.length; j++)
                if (idOf(got[j]) != want[j]) return p.name + "[" + j + "] is object " + idOf(got[j]) + ", expected " + want[j];
            tick(count, "objects");
            return null;
        }

        // ---------------------------------------------------- transport --
        void invoke(Ref ref, int op, byte[][] bi, int[] boSizes, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws InvokeException {
            Call c = cur.calls.peek();
            if (c == null || c.sent) throw new Bad("C18", "the proxy sends more than one request", c == null ? "" : show(c));
            c.sent = true;
            envelope(c, op, bi, boSizes, bo, oi, oo);
            if (cur.r.chance(pYield * .4)) {
                // preempted before the transport has read the arguments
                pause(false);
                envelope(c, op, bi, boSizes, bo, oi, oo);
            }
            if (!c.wire) {
                Exec x = new Exec();
                x.call = c;
                x.node = cur.node;
                Reply rp = serve(x, op, bi, boSizes, bo, oi, oo);
                c.reply = rp;
                if (rp.code != 0) throw new InvokeException(rp.code);
                return;
            }
            // what travels are copies
            byte[][] nbi = new byte[c.m.nbi][];
            for (int k = 0; k < nbi.length; k++) nbi[k] = bi[k] == null ? new byte[0] : bi[k].clone();
            int[] nsz = c.m.nbo == 0 ? new int[0] : boSizes.clone();
            int[] noi = new int[c.m.noi];
            for (int k = 0; k < noi.length; k++) noi[k] = idOf(oi[k]);
            c.waiter = cur;
            int copies = 1;
            if (fault("drop_request", net.chance(pDropReq))) copies = 0;
            else if (fault("duplicate_request", net.chance(pDup))) copies = 2 + net.below(2);
            for (int k = 0; k < copies; k++) {
                long delay = 1 + net.below(20);
                if (fault("slow_request", net.chance(pSlow))) delay += net.below(3000);
                event(delay, () -> deliver(c, op, nbi, nsz, noi));
            }
            event(2500, () -> {
                if (c.answered) return;
                Reply rp = new Reply();
                rp.code = IMinkObject.ERROR_UNAVAIL;
                answer(c, rp);
            });
            pause(true);
            Reply rp = c.reply;
            if (rp.code != 0) throw new InvokeException(rp.code);
            for (int k = 0; k < c.m.nbo; k++) bo[k] = rp.bo[k].clone();
            for (int k = 0; k < c.m.noo; k++) oo[k] = refTo(rp.oo[k], cur.node, cur.r, false);
        }

        void answer(Call c, Reply rp) {
            if (c.answered) {
                tick(faults, "late_or_duplicate_reply");
                return;
            }
            c.answered = true;
            c.reply = rp;
            c.waiter.waiting = false;
            note("call " + c.id + " is answered with " + rp.code);
        }

        void deliver(Call c, int op, byte[][] bi, int[] sz, int[] oi) {
            int node = c.target.node;
            if (!up[node]) {
                tick(faults, "lost_with_node");
                return;
            }
            tick(count, "deliveries");
            int ep = epoch[node];
            spawn(node, () -> {
                note("node " + node + " serves call " + c.id);
                Rng r = cur.r;
                byte[][] b = c.m.nbi == 0 && r.chance(.5) ? null : new byte[bi.length][];
                for (int k = 0; k < bi.length; k++) b[k] = bi[k].clone();
                int[] s = c.m.nbo == 0 && r.chance(.5) ? null : sz.clone();
                byte[][] bo = c.m.nbo == 0 && r.chance(.5) ? null : new byte[c.m.nbo][];
                IMinkObject[] i = c.m.noi == 0 && r.chance(.5) ? null : new IMinkObject[c.m.noi];
                for (int k = 0; k < oi.length; k++) i[k] = refTo(oi[k], node, r, false);
                IMinkObject[] o = c.m.noo == 0 && r.chance(.5) ? null : new IMinkObject[c.m.noo];
                Exec x = new Exec();
                x.call = c;
                x.node = node;
                Reply rp = serve(x, op, b, s, bo, i, o);
                if (epoch[node] != ep) {
                    tick(faults, "reply_lost_with_node");
                    return;
                }
                if (fault("drop_reply", net.chance(pDropRep))) return;
                int copies = fault("duplicate_reply", net.chance(pDup)) ? 2 : 1;
                for (int k = 0; k < copies; k++) {
                    long d = 1 + net.below(20);
                    if (fault("slow_reply", net.chance(pSlow))) d += net.below(3000);
                    event(d, () -> answer(c, rp));
                }
            });
        }

        static boolean empty(Object a) {
            return a == null || Array.getLength(a) == 0;
        }

        /** What a proxy hands to the transport. */
        void envelope(Call c, int op, byte[][] bi, int[] sz, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {
            MethT m = c.m;
            tick(count, "envelopes");
            String w = show(c);
            if (op != m.op) throw new Bad("C18 C07", "the proxy sends another op-code", w + ": " + op + " instead of " + m.op);
            size(w, "input buffers", bi, m.nbi);
            size(w, "output sizes", sz, m.nbo);
            size(w, "output buffers", bo, m.nbo);
            size(w, "input objects", oi, m.noi);
            size(w, "output objects", oo, m.noo);
            for (int k = 0; k < m.nbi; k++) {
                byte[] want = image(m, k, false, c.in);
                byte[] got = bi[k] == null ? new byte[0] : bi[k];
                if (!Arrays.equals(want, got)) throw new Bad("C18", "the proxy encodes an input differently", w + ": input buffer " + k + " is " + hex(got) + ", expected " + hex(want));
            }
            for (int k = 0; k < m.nbo; k++) {
                int q = m.out[k], want = 0;
                if (q < 0) for (int b : m.bo) want += m.ps[b].size;
                else want = c.cap[q] * m.ps[q].size;
                if (sz[k] != want) throw new Bad("C18", "the proxy announces another output size", w + ": output buffer " + k + " has " + sz[k] + " bytes, expected " + want);
            }
            int k = 0;
            for (int q = 0; q < m.ps.length; q++) {
                if (m.ps[q].out || !m.ps[q].kind.startsWith("obj")) continue;
                for (int id : (int[]) c.in[q]) {
                    if (idOf(oi[k]) != id) throw new Bad("C18", "the proxy passes another object", w + ": input object " + k + " is " + idOf(oi[k]) + ", expected " + id);
                    k++;
                }
            }
        }

        void size(String w, String what, Object a, int n) {
            int got = a == null ? 0 : Array.getLength(a);
            if (got != n) throw new Bad("C18", "the proxy passes another number of arguments", w + ": " + got + " " + what + ", expected " + n);
        }

        /** The skeleton's side of an execution. */
        Reply serve(Exec x, int op, byte[][] bi, int[] sz, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {
            Call c = x.call;
            MethT m = c.m;
            String w = show(c);
            Reply rp = new Reply();
            rp.from = x;
            cur.execs.push(x);
            // what the runtime does around a request that comes over the wire
            IMinkObject skel = c.target.skel;
            if (c.wire) skel.retain();
            try {
                skel.invoke(op, bi, sz, bo, oi, oo);
            } catch (InvokeException e) {
                rp.code = e.code;
            } catch (RuntimeException | LinkageError | StackOverflowError e) {
                throw new Bad("C18", "the skeleton throws " + e.getClass().getSimpleName(), w + ": " + stack(e));
            } finally {
                cur.execs.pop();
            }
            if (c.wire) skel.release();
            if (x.defaulted) {
                if (rp.code != IMinkObject.ERROR_INVALID) throw new Bad("C04", "a missing optional method is not refused as invalid", w + ": status " + rp.code);
                tick(count, rp.code == 0 ? "optional_ignored" : "optional_refused");
                if (rp.code == 0) rp.code = IMinkObject.ERROR_INVALID;
                return rp;
            }
            if (!x.ran)
                throw new Bad(rp.code != 0 ? "C18 C07" : "C18", rp.code != 0 ? "the skeleton refuses a well-formed request" : "the skeleton answers without the implementation", w + ": status " + rp.code);
            if (rp.code != x.code) throw new Bad("C18 C08", "the skeleton changes the status", w + ": " + rp.code + " instead of " + x.code);
            if (rp.code != 0) return rp;
            // preempted before the transport has read the outputs
            if (cur.r.chance(pYield * .4)) pause(false);
            rp.bo = new byte[m.nbo][];
            for (int k = 0; k < m.nbo; k++) {
                byte[] want = image(m, k, true, x.out);
                byte[] got = bo[k] == null ? new byte[0] : bo[k];
                if (!Arrays.equals(want, got)) throw new Bad("C18", "the skeleton encodes an output differently", w + ": output buffer " + k + " is " + hex(got) + ", expected " + hex(want));
                rp.bo[k] = got.clone();
            }
            rp.oo = new int[m.noo];
            int k = 0;
            for (int q = 0; q < m.ps.length; q++) {
                if (!m.ps[q].out || !m.ps[q].kind.startsWith("obj")) continue;
                for (int id : (int[]) x.out[q]) {
                    if (idOf(oo[k]) != id) throw new Bad("C18", "the skeleton returns another object", w + ": output object " + k + " is " + idOf(oo[k]) + ", expected " + id);
                    rp.oo[k++] = id;
                }
            }
            tick(count, "replies_checked");
            return rp;
        }

        // ----------------------------------------------- implementation --
        Object implement(Obj o, Object self, Method jm, Object[] a) throws Throwable {
            if (jm.getDeclaringClass() == Object.class)
                return jm.getName().equals("equals") ? (Object) (self == a[0]) : jm.getName().equals("hashCode") ? (Object) o.id : "object " + o.id;
            Exec x = cur.execs.peek();
            if (x == MISFIT) throw new Bad("C04", "a malformed envelope reaches the implementation", o.iface.name + ": " + jm.getName());
            if (x == NOBODY) throw new Bad("C04 C07", "a foreign op-code reaches the implementation", o.iface.name + ": " + jm.getName());
            if (x == null || x.ran || x.defaulted || x.node != cur.node) throw new Bad("C18", "the implementation runs more than once for a request", jm.getName());
            Call c = x.call;
            MethT m = c.m;
            String w = show(c);
            if (c.target != o || !m.name.equals(jm.getName())) throw new Bad("C18 C07", "the skeleton runs another method", w + ": " + jm.getName());
            if (!o.provides[m.idx] && jm.isDefault()) {
                x.defaulted = true;
                tick(faults, "optional_method_missing");
                return InvocationHandler.invokeDefault(self, jm, a);
            }
            x.ran = true;
            tick(count, "impl_runs");
            inputs(c, a, w);
            Rng r = cur.r;
            if (r.chance(pYield)) {
                pause(false);
            }
            if (cur.execs.size() < 3 && fault("nested_call", r.chance(pNest))) {
                call(objs.get(r.below(objs.size())), r, c.op, 1);
            }
            inputs(c, a, w);
            x.out = new Object[m.ps.length];
            int k = 0;
            boolean fails = fault("impl_error", r.chance(pErr));
            for (int q = 0; q < m.ps.length; q++) {
                ParamT p = m.ps[q];
                Object h = a[k++];
                if (!p.out) continue;
                if (p.kind.startsWith("obj")) {
                    int[] ids = new int[p.count];
                    IMinkObject[] to = p.kind.equals("obj") ? (IMinkObject[]) h : new IMinkObject[p.count];
                    if (p.kind.equals("objs")) {
                        int n = (Integer) a[k++];
                        if (n != p.count) throw new Bad("C18", "the skeleton passes another length", w + ": " + p.name + " " + n + " instead of " + p.count);
                        IMinkObject[][] hh = (IMinkObject[][]) h;
                        if (hh[0] != null && hh[0].length == p.count && r.chance(.5)) to = hh[0];
                        else hh[0] = to;
                    }
                    for (int j = 0; j < p.count; j++) {
                        ids[j] = r.chance(.2) ? -1 : r.below(objs.size());
                        to[j] = refTo(ids[j], cur.node, r, true);
                    }
                    x.out[q] = ids;
                    continue;
                }
                int len = 1;
                if (p.var()) {
                    int n = (Integer) a[k++];
                    if (n != c.cap[q]) throw new Bad("C18", "the skeleton passes another length", w + ": " + p.name + " " + n + " instead of " + c.cap[q]);
                    len = r.chance(.5) ? n : r.below(n + 1);
                }
                x.out[q] = genData(r, p, len);
                if (p.st != null && !p.var() && Array.get(h, 0) != null && r.chance(.5)) fillStruct(p.st, Array.get(h, 0), x.out[q]);
                else if (p.var() && len == 0 && Array.get(h, 0) != null && Array.getLength(Array.get(h, 0)) == 0 && r.chance(.5)) continue;
                else Array.set(h, 0, toJava(p, x.out[q]));
            }
            if (fails) {
                List<Integer> own = o.iface.errv;
                x.code = own.isEmpty() || r.chance(.3) ? 1 + r.below(9) : own.get(r.below(own.size()));
                throw new InvokeException(x.code);
            }
            if (r.chance(pYield * .3)) pause(false);
            return null;
        }

        void inputs(Call c, Object[] a, String w) throws ReflectiveOperationException {
            int k = 0;
            for (int q = 0; q < c.m.ps.length; q++) {
                ParamT p = c.m.ps[q];
                Object h = a[k++];
                if (p.out) {
                    if (h == null) throw new Bad("C18", "the skeleton passes no holder for an output", w + ": " + p.name);
                    if (p.var() || p.kind.equals("objs")) k++;
                    continue;
                }
                String d = p.kind.equals("obj") ? diffObjs(p, (int[]) c.in[q], new IMinkObject[] {(IMinkObject) h})
                    : p.kind.equals("objs") ? diffObjs(p, (int[]) c.in[q], (IMinkObject[]) h) : diff(p, c.in[q], h);
                if (d != null) throw new Bad("C18", "the implementation does not get the caller's values", w + ": " + d);
                tick(count, "inputs");
            }
        }
    }

    // --------------------------------------------------------------- main --
    static String q(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }

    static String map(Map<String, Long> m) {
        StringJoiner j = new StringJoiner(", ", "{", "}");
        m.forEach((k, v) -> j.add(q(k) + ": " + v));
        return j.toString();
    }

    static String violation(long seed, String tag, String kind, String detail, long digest) {
        return "{\"seed\": " + seed + ", \"tags\": " + q(tag) + ", \"kind\": " + q(kind) + ", \"detail\": " + q(detail) + ", \"digest\": " + q(Long.toHexString(digest)) + "}";
    }

    public static void main(String[] argv) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true);
        for (String line; (line = in.readLine()) != null; ) {
            String[] x = line.split(" ");
            if (!x[0].equals("run")) continue;
            if (world == null || !world.dir.equals(x[1])) {
                if (world != null && world.loader != null) world.loader.close();
                world = load(x[1]);
            }
            faults.clear();
            count.clear();
            links.clear();
            digests.clear();
            methodsSeen.clear();
            List<String> vs = new ArrayList<>(), ds = new ArrayList<>();
            long runs = 0, simTime = 0, steps = 0;
            int planned = 0;
            boolean stuck = false;
            if (world.buildError == null) {
                for (String[] e : world.constantErrors) vs.add(violation(0, e[0], e[1], e[2], 0));
                long seed0 = Long.parseLong(x[2]);
                int n = Integer.parseInt(x[3]);
                Set<Integer> keep = null;
                if (!x[4].equals("*")) {
                    keep = new HashSet<>();
                    for (String k : x[4].split(",")) if (!k.isEmpty()) keep.add(Integer.parseInt(k));
                }
                Set<String> off = new HashSet<>(Arrays.asList(x[5].split(",")));
                for (int k = 0; k < n; k++) {
                    Run r;
                    try {
                        r = new Run(seed0 + k, keep, off, !x[6].equals("-"));
                    } catch (Bad e) {
                        vs.add(violation(seed0 + k, e.tag, e.kind, e.getMessage(), 0));
                        break;
                    }
                    stuck = !r.go();
                    runs++;
                    simTime += r.now;
                    steps += r.steps;
                    planned = r.planned;
                    digests.add(r.digest);
                    if (n <= 4) ds.add(q(Long.toHexString(r.digest)));
                    if (!x[6].equals("-")) Files.write(Path.of(x[6]), r.trace);
                    if (r.bad != null) {
                        vs.add(violation(seed0 + k, r.bad.tag, r.bad.kind, r.bad.getMessage(), r.digest));
                        if (stuck || r.bad.tag.contains(x[7]) || r.bad.tag.equals("harness")) break;
                        if (vs.size() > 20) break;
                    }
                }
            }
            count.put("runs", runs);
            count.put("sim_us", simTime);
            count.put("steps", steps);
            count.put("interleavings", (long) digests.size());
            count.put("methods_called", (long) methodsSeen.size());
            out.println("{\"build_error\": " + (world.buildError == null ? "null" : q(world.buildError)) + ", \"planned\": " + planned + ", \"stats\": " + map(count) + ", \"faults\": " + map(faults) + ", \"links\": " + map(links)
                + ", \"digests\": [" + String.join(", ", ds) + "], \"violations\": [" + String.join(", ", vs) + "]}");
            if (stuck) System.exit(9);
        }
    }
}
