package progs;
public class Consts {
    static final int I0 = Integer.MIN_VALUE, I1 = Integer.MAX_VALUE, I2 = -32769, I3 = 32768; static final long L0 = Long.MIN_VALUE, L1 = Long.MAX_VALUE, L2 = 0x1_0000_0000L; static final float F0 = Float.NaN, F1 = -0f, F2 = Float.MIN_VALUE, F3 = Float.NEGATIVE_INFINITY; static final double D0 = Double.NaN, D1 = -0d, D2 = Double.MIN_VALUE, D3 = Math.PI; static final String S0 = "", S1 = "\0", S2 = "\ud800", S3 = "\udc00\ud800", S4 = "\ud83d\ude00é\u07ff\u0800\uffff"; static final char C0 = '\uffff'; static final byte B0 = -128; static final short H0 = -32768; static final boolean Z0 = true;
    static String hex(String s) { StringBuilder b = new StringBuilder(); for (char c : s.toCharArray()) b.append(Integer.toHexString(c)).append(' '); return b.toString(); }
    public static void run() throws Exception {
        for (java.lang.reflect.Field f : Consts.class.getDeclaredFields()) { Object v = f.get(null); System.out.print(f.getName() + "=" + (v instanceof String ? hex((String) v) : v instanceof Float ? Integer.toHexString(Float.floatToRawIntBits((Float) v)) : v instanceof Double ? Long.toHexString(Double.doubleToRawLongBits((Double) v)) : v instanceof Character ? (int) (Character) v : v) + ";"); }
        System.out.println();
        int[] is = { -1, 0, 1, 2, 3, 4, 5, 6, -2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, I0, I1 }; long s = 0; for (int i : is) { s = s * 31 + i; System.out.print(i + " "); }
        long[] ls = { 0, 1, 2, -1, 127, 1L << 31, 1L << 32, L0, L1 }; for (long i : ls) { s = s * 31 + i; System.out.print(i + " "); }
        float[] fs = { 0f, 1f, 2f, 3f, -0f, -1f, 0.1f, F2, F3, Float.MAX_VALUE }; for (float f : fs) System.out.print(Integer.toHexString(Float.floatToRawIntBits(f)) + " ");
        double[] ds = { 0d, 1d, 2d, -0d, -1d, 0.1, D2, Double.POSITIVE_INFINITY, Double.MAX_VALUE }; for (double f : ds) System.out.print(Long.toHexString(Double.doubleToRawLongBits(f)) + " ");
        System.out.println(s + hex(S1 + S2 + S3 + S4));
        Class<?>[] cs = { int.class, void.class, String.class, int[].class, String[][].class, Consts.class, Runnable.class, Consts[].class }; for (Class<?> c : cs) System.out.print(c + " ");
        System.out.println();
    }
}
