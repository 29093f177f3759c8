/** What the C interface computes (refjni.c). */
class Ref {
    static { System.loadLibrary("refjni"); }
    static native long held();
    static native long[] labels(double[] data, int rows, int cols, int minPts);
    static native long[] map(long[] labels);
}
