import bw.co.roguesystems.Hdbscan;
import java.io.RandomAccessFile;
import java.lang.reflect.*;
import java.nio.*;
import java.nio.channels.FileChannel;
import java.util.*;

/** Driver of the Java binding: every word of calls on one and two clustering objects, every small data set,
 *  every invalid argument; the C interface says what each call must return. */
public class JavaBind {
    static class Fail extends RuntimeException { Fail(String s) { super(s); } }
    static long transitions = 0;
    static Set<Long> states = new HashSet<>();

    static final double[][] A1 = {{0, 0}, {1, 0}, {0, 1}, {9, 9}, {9, 8}, {8, 9}, {4, 5}};
    static final double[][] A2 = {{3}, {3}, {4}, {10}};
    static final double[][] A3 = {{0}, {2}, {3}, {11}, {12}, {14}, {30}, {31}, {33}, {34}};
    static final double[][][] DATA = {A1, A2, A3};

    static double[] flat(double[][] d) {
        double[] f = new double[d.length * d[0].length]; int p = 0;
        for (double[] r : d) for (double x : r) f[p++] = x;
        return f;
    }
    static HashMap<String, long[]> memo = new HashMap<>();
    static long[] expected(String key, double[][] d, int m) {
        String k = key + "/" + m; long[] r = key == null ? null : memo.get(k);
        if (r == null) { r = Ref.labels(flat(d), d.length, d[0].length, m); if (key != null) memo.put(k, r); }
        return r;
    }
    static String show(Object o) {
        if (o instanceof int[]) return Arrays.toString((int[])o);
        if (o instanceof long[]) return Arrays.toString((long[])o);
        return String.valueOf(o);
    }
    static boolean same(int[] a, long[] b) {
        if (a == null || b == null) return a == null && b == null;
        if (a.length != b.length) return false;
        for (int i = 0; i < a.length; i++) if ((long)a[i] != (long)(int)b[i]) return false;
        return true;
    }
    static HashMap<Integer, ArrayList<Integer>> expectedMap(long[] labels) {
        HashMap<Integer, ArrayList<Integer>> m = new HashMap<>(); long[] f = Ref.map(labels); int p = 1;
        for (int i = 0; i < f[0]; i++) { int lab = (int)f[p], c = (int)f[p + 1]; p += 2; ArrayList<Integer> l = new ArrayList<>(); for (int j = 0; j < c; j++) l.add((int)f[p++]); m.put(lab, l); }
        return m;
    }

    static class Kept { String what; int[] a; int[] copy; Map<Integer, ArrayList<Integer>> m, mcopy; }
    static class Obj {
        Hdbscan o; int m; double[][] data; String key; long[] labels; List<Kept> kept; String tag; boolean cleaned, judged = true;
        Obj(int m, List<Kept> kept, String tag) { o = new Hdbscan(m); this.m = m; this.kept = kept; this.tag = tag; }
        void keep(String what, int[] a) { if (a == null) return; Kept k = new Kept(); k.what = tag + what; k.a = a; k.copy = a.clone(); kept.add(k); }
        void keep(String what, HashMap<Integer, ArrayList<Integer>> a) {
            if (a == null) return; Kept k = new Kept(); k.what = tag + what; k.m = a; k.mcopy = new HashMap<>();
            for (Map.Entry<Integer, ArrayList<Integer>> e : a.entrySet()) k.mcopy.put(e.getKey(), new ArrayList<>(e.getValue()));
            kept.add(k);
        }
        void look(String when) {
            if (!judged) return;
            int[] l = o.getLabels();
            if (!same(l, labels)) throw new Fail(tag + "getLabels is " + show(l) + " " + when + ", the C interface computes " + show(labels));
            HashMap<Integer, ArrayList<Integer>> g = o.getClusterMap();
            if (labels == null) { if (g != null) throw new Fail(tag + "getClusterMap is " + g + " " + when + " although nothing was clustered"); return; }
            HashMap<Integer, ArrayList<Integer>> w = expectedMap(labels);
            if (g == null || !g.equals(w)) throw new Fail(tag + "getClusterMap is " + g + " " + when + ", the C interface computes " + w);
        }
        void run(String key, double[][] d) {
            double[][] given = new double[d.length][]; for (int i = 0; i < d.length; i++) given[i] = d[i].clone();
            o.run(given);
            for (int i = 0; i < d.length; i++) { if (!Arrays.equals(given[i], d[i])) throw new Fail(tag + "run changed the data it was given"); Arrays.fill(given[i], 55.0); }
            this.key = key; data = d; labels = expected(key, d, m); cleaned = false; judged = true;
            keep("getLabels after run", o.getLabels());
        }
        void reRun(int k) {
            if (data == null || cleaned) { raises("reRun(" + k + ") without data", () -> o.reRun(k)); return; }
            o.reRun(k); m = k; labels = expected(key, data, k);
            keep("getLabels after reRun", o.getLabels());
        }
        void clean() { o.cleanHdbscan(); cleaned = true; judged = false; }
        void map() { if (judged) keep("getClusterMap", o.getClusterMap()); else o.getClusterMap(); }
        void raises(String what, Runnable f) {
            try { f.run(); } catch (RuntimeException e) { if (e instanceof Fail) throw e; return; } catch (Error e) { throw new Fail(tag + what + " raised " + e); }
            throw new Fail(tag + what + " raised no exception");
        }
    }
    static void unchanged(List<Kept> kept) {
        for (Kept k : kept) {
            if (k.a != null && !Arrays.equals(k.a, k.copy)) throw new Fail("what " + k.what + " returned changed afterwards: " + show(k.a) + ", was " + show(k.copy));
            if (k.m != null && !k.m.equals(k.mcopy)) throw new Fail("what " + k.what + " returned changed afterwards: " + k.m + ", was " + k.mcopy);
        }
    }
    interface Op { void go(Obj o); }
    static class Named { String n; Op f; Named(String n, Op f) { this.n = n; this.f = f; } }
    static List<Named> OPS = new ArrayList<>(), CORE = new ArrayList<>(), BAD = new ArrayList<>();
    static void bad(String n, Op f) { BAD.add(new Named(n, o -> o.raises(n, () -> f.go(o)))); }
    static {
        for (int i = 0; i < 3; i++) { final int k = i; OPS.add(new Named("run(A" + (k + 1) + ")", o -> o.run("A" + (k + 1), DATA[k]))); }
        for (int i : new int[]{2, 3, 5}) { final int k = i; OPS.add(new Named("reRun(" + k + ")", o -> o.reRun(k))); }
        OPS.add(new Named("clean", o -> o.clean()));
        OPS.add(new Named("map", o -> o.map()));
        for (Named n : OPS) if (!n.n.equals("run(A2)") && !n.n.equals("reRun(5)") && !n.n.equals("map")) CORE.add(n);
        bad("run(null)", o -> o.o.run(null)); bad("run(no rows)", o -> o.o.run(new double[0][])); bad("run(null row)", o -> o.o.run(new double[][]{{1}, null, {2}}));
        bad("run(first row null)", o -> o.o.run(new double[][]{null, {2}})); bad("run(short row)", o -> o.o.run(new double[][]{{1, 2}, {3, 4}, {5}}));
        bad("run(long row)", o -> o.o.run(new double[][]{{1, 2}, {3, 4}, {5, 6, 7}})); bad("run(empty row)", o -> o.o.run(new double[][]{{1}, {}}));
        for (int m : new int[]{1, 0, -1, Integer.MIN_VALUE}) bad("reRun(" + m + ")", o -> o.o.reRun(m));
        for (int m : new int[]{1, 0, -1, Integer.MIN_VALUE}) bad("new Hdbscan(" + m + ")", o -> new Hdbscan(m));
    }
    static int[] digits(long i, int base, int n) { int[] r = new int[n]; for (int k = 0; k < n; k++) { r[k] = (int)(i % base); i /= base; } return r; }
    static long pow(long b, int n) { long r = 1; while (n-- > 0) r *= b; return r; }

    static void step(Obj o, Named op, Obj[] objs, List<Kept> kept) {
        try { op.f.go(o); }
        catch (Fail e) { throw new Fail("at " + o.tag + op.n + ": " + e.getMessage()); }
        catch (Throwable e) { throw new Fail("at " + o.tag + op.n + ": unexpected " + e); }
        for (Obj x : objs) x.look("after " + o.tag + op.n);
        unchanged(kept); transitions++;
        long h = op.n.hashCode(); for (Obj x : objs) h = h * 1000003 + x.m * 31 + (x.key == null ? 0 : x.key.hashCode()) + (x.cleaned ? 7919 : 0);
        states.add(h);
    }
    static void play(int[] ms, List<Named> ops, int n, long i) {
        List<Kept> kept = new ArrayList<>(); Obj[] objs = new Obj[ms.length];
        for (int k = 0; k < ms.length; k++) objs[k] = new Obj(ms[k], kept, ms.length > 1 ? (k == 0 ? "a." : "b.") : "");
        boolean last = ms.length > 1 && (i & 1) == 1; if (ms.length > 1) i >>= 1;
        for (int d : digits(i, ops.size() * ms.length, n)) step(objs[d / ops.size()], ops.get(d % ops.size()), objs, kept);
        for (int k = 0; k < objs.length; k++) { Obj o = objs[last ? objs.length - 1 - k : k]; o.clean(); for (Obj x : objs) x.look("after cleaning " + o.tag); unchanged(kept); }
    }
    static String word(int[] ms, List<Named> ops, int n, long i) {
        StringBuilder s = new StringBuilder("objects " + Arrays.toString(ms) + ":"); if (ms.length > 1) i >>= 1;
        for (int d : digits(i, ops.size() * ms.length, n)) s.append(" ").append(ms.length > 1 ? (d / ops.size() == 0 ? "a." : "b.") : "").append(ops.get(d % ops.size()).n);
        return s.toString();
    }
    static List<Named> badWord(int n, long i) {
        List<Named> w = new ArrayList<>(); int nb = BAD.size();
        for (int d : digits(i / nb / (n + 1), CORE.size(), n)) w.add(CORE.get(d));
        w.add((int)(i / nb % (n + 1)), BAD.get((int)(i % nb))); return w;
    }
    static String names(List<Named> w) { StringBuilder s = new StringBuilder(); for (Named n : w) s.append(n.n).append(" "); return s.toString(); }

    static final double[] VALUES = {-1e9, 0.0, 0.1, 2.5};
    static final int[][] SHAPES = {{1, 1}, {1, 3}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {2, 2}, {3, 2}, {2, 3}};
    static Object[] data(long i) {
        for (int[] s : SHAPES) {
            long c = 3 * pow(4, s[0] * s[1]);
            if (i < c) { int[] d = digits(i / 3, 4, s[0] * s[1]); double[][] x = new double[s[0]][s[1]]; for (int k = 0; k < d.length; k++) x[k / s[1]][k % s[1]] = VALUES[d[k]]; return new Object[]{x, 2 + (int)(i % 3)}; }
            i -= c;
        }
        throw new RuntimeException();
    }
    static void small(long i) {
        Object[] c = data(i); double[][] x = (double[][])c[0]; int m = (Integer)c[1];
        List<Kept> kept = new ArrayList<>(); Obj o = new Obj(m, kept, ""); Obj[] os = {o};
        step(o, new Named("run", a -> a.run(null, x)), os, kept);
        step(o, new Named("reRun", a -> a.reRun(5 - (m == 4 ? 2 : m))), os, kept);
        o.clean(); transitions++; states.add((long)Arrays.deepHashCode(x) * 31 + m);
    }
    static final int[] SIZES = {1, 2, 3, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 500};
    static void sized(long i) {
        int n = SIZES[(int)(i / 6)], cols = 1 + (int)(i / 2 % 3) * 20, m = 2 + (int)(i % 2) * 5; double[][] x = new double[n][cols];
        for (int r = 0; r < n; r++) for (int c = 0; c < cols; c++) x[r][c] = (r / 4) * 10 + (r % 4) + c * 0.25 * (r % 3);
        List<Kept> kept = new ArrayList<>(); Obj o = new Obj(m, kept, ""); Obj[] os = {o};
        step(o, new Named("run", a -> a.run(null, x)), os, kept);
        step(o, new Named("reRun", a -> a.reRun(4)), os, kept);
        o.clean();
    }
    /** Every declared native method is found in the native library. */
    static void natives(long i) throws Exception {
        List<Method> ms = new ArrayList<>(); for (Method m : Hdbscan.class.getDeclaredMethods()) if (Modifier.isNative(m.getModifiers())) ms.add(m);
        for (Method m : ms) {
            Hdbscan o = new Hdbscan(2); o.run(A1); m.setAccessible(true);
            Object[] a = new Object[m.getParameterCount()]; Class<?>[] t = m.getParameterTypes();
            for (int k = 0; k < a.length; k++) a[k] = t[k] == int.class ? (Object)3 : t[k] == long.class ? (Object)3L : t[k] == double.class ? (Object)3.0 : t[k] == boolean.class ? (Object)true : t[k] == double[][].class ? A1 : t[k] == double[].class ? new double[]{1, 2} : null;
            boolean known = true; for (int k = 0; k < a.length; k++) if (a[k] == null || t[k] == long.class) known = false;
            if (!known || Modifier.isStatic(m.getModifiers())) continue;
            try { m.invoke(o, a); }
            catch (InvocationTargetException e) { if (e.getCause() instanceof LinkageError) throw new Fail("native method " + m.getName() + " cannot be called: " + e.getCause()); }
            transitions++;
        }
        // each class of the binding that runs clusterings does so through its public methods alone
        Hdbscan o = new Hdbscan(2); o.cleanHdbscan(); o.cleanHdbscan(); o.run(A1);
        if (!same(o.getLabels(), expected("A1", A1, 2))) throw new Fail("labels after two cleanings and a run: " + show(o.getLabels()));
        o.cleanHdbscan();
    }
    static void leak(int n, long i) {
        List<Named> all = new ArrayList<>(OPS); all.addAll(BAD);
        Runnable once = () -> {
            for (int r = 0; r < 10; r++) {
                List<Kept> kept = new ArrayList<>(); Obj o = new Obj(2, kept, ""); Obj[] os = {o};
                for (int d : digits(i, all.size(), n)) step(o, all.get(d), os, kept);
                o.clean();
            }
        };
        for (int k = 0; k < 2; k++) once.run();
        long was = Ref.held();
        for (int k = 0; k < 8; k++) { once.run(); long now = Ref.held(); if (now <= was) return; was = now; }
        throw new Fail("native memory in use grows in each of 8 rounds of ten objects");
    }

    interface Case { void go(long i) throws Exception; }
    interface Desc { String of(long i); }
    static class Family { String n; long c; Case f; Desc d; Family(String n, long c, Case f, Desc d) { this.n = n; this.c = c; this.f = f; this.d = d; } }
    static List<Family> families(boolean th) {
        List<Family> fs = new ArrayList<>();
        int d1 = th ? 6 : 5, d2 = th ? 4 : 3, d3 = th ? 5 : 4, db = th ? 4 : 3;
        for (int k = 1; k <= d1; k++) { final int n = k; fs.add(new Family("one-" + n, pow(OPS.size(), n), i -> play(new int[]{2}, OPS, n, i), i -> word(new int[]{2}, OPS, n, i))); }
        for (int k = 1; k <= d2; k++) { final int n = k; fs.add(new Family("two-" + n, 2 * pow(2 * OPS.size(), n), i -> play(new int[]{2, 4}, OPS, n, i), i -> word(new int[]{2, 4}, OPS, n, i))); }
        fs.add(new Family("two-core-" + d3, 2 * pow(2 * CORE.size(), d3), i -> play(new int[]{3, 2}, CORE, d3, i), i -> word(new int[]{3, 2}, CORE, d3, i)));
        for (int k = 1; k <= db; k++) { final int n = k; fs.add(new Family("bad-" + n, (long)BAD.size() * (n + 1) * pow(CORE.size(), n), i -> { List<Kept> kept = new ArrayList<>(); Obj o = new Obj(2, kept, ""); for (Named s : badWord(n, i)) step(o, s, new Obj[]{o}, kept); o.clean(); }, i -> names(badWord(n, i)))); }
        long c = 0; for (int[] s : SHAPES) c += 3 * pow(4, s[0] * s[1]);
        fs.add(new Family("small", c, i -> small(i), i -> Arrays.deepToString((double[][])data(i)[0]) + " minPoints " + data(i)[1]));
        fs.add(new Family("sizes", 6 * SIZES.length, i -> sized(i), i -> SIZES[(int)(i / 6)] + " rows, " + (1 + i / 2 % 3 * 20) + " columns, minPoints " + (2 + i % 2 * 5)));
        fs.add(new Family("natives", 1, i -> natives(i), i -> "every declared native method"));
        int nl = OPS.size() + BAD.size();
        for (int k = 1; k <= 2; k++) { final int n = k; fs.add(new Family("leak-" + n, pow(nl, n), i -> leak(n, i), i -> "calls " + Arrays.toString(digits(i, nl, n)) + " of " + names(OPS) + names(BAD))); }
        return fs;
    }
    static String stat() { StringBuilder s = new StringBuilder("{\"transitions\": " + transitions + ", \"states\": ["); boolean f = true; for (long h : states) { if (!f) s.append(","); f = false; s.append(h); } return s.append("]}").toString(); }
    static void say(String t) throws Exception { try (java.io.FileWriter w = new java.io.FileWriter(System.getenv("VERIF_REPORT"), true)) { w.write(t + "\n"); } }
    public static void main(String[] a) throws Exception {
        boolean th = a[a.length - 1].equals("thorough"); List<Family> fs = families(th);
        if (a[0].equals("list")) { for (Family f : fs) System.out.println("FAMILY " + f.n + " " + f.c); return; }
        Ref.held();
        if (a[0].equals("desc") || a[0].equals("one")) {
            long g = Long.parseLong(a[1]);
            for (Family f : fs) { if (g < f.c) {
                if (a[0].equals("desc")) System.out.println(f.d.of(g));
                else { try { f.f.go(g); } catch (Fail e) { say("FAIL " + e.getMessage()); System.exit(77); } say("DONE"); }
                return; } g -= f.c; }
            return;
        }
        long w = Long.parseLong(a[1]), of = Long.parseLong(a[2]), start = Long.parseLong(a[3]), lo = 0;
        MappedByteBuffer prog = new RandomAccessFile(a[4], "rw").getChannel().map(FileChannel.MapMode.READ_WRITE, 0, 8); prog.order(ByteOrder.LITTLE_ENDIAN);
        for (Family f : fs) {
            long b = Math.max(start, lo);
            for (long g = b + (((w - b) % of) + of) % of; g < lo + f.c; g += of) {
                prog.putLong(0, g);
                try { f.f.go(g - lo); }
                catch (Fail e) { say("STAT " + stat()); say("FAIL " + e.getMessage()); System.exit(77); }
            }
            lo += f.c;
        }
        say("DONE " + stat());
    }
}
