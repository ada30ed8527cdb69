package progs;
public class Switches {
    enum Colour { RED, GREEN, BLUE { @Override String nick() { return "sky"; } }; String nick() { return name().toLowerCase(); } }
    static int table(int i) { switch (i) { case 0: return 10; case 1: return 11; case 2: return 12; case 3: case 4: return 34; case 7: return 70; default: return -1; } }
    static int low(int i) { switch (i) { case Integer.MIN_VALUE: return 1; case Integer.MIN_VALUE + 1: return 2; case Integer.MIN_VALUE + 2: return 3; case Integer.MIN_VALUE + 3: return 4; default: return 0; } }
    static int high(int i) { switch (i) { case Integer.MAX_VALUE: return 1; case Integer.MAX_VALUE - 1: return 2; case Integer.MAX_VALUE - 2: return 3; default: return 0; } }
    static int lookup(int i) { switch (i) { case Integer.MIN_VALUE: return 1; case -100000: return 2; case 0: return 3; case 99: return 4; case Integer.MAX_VALUE: return 5; default: return 6; } }
    static String str(String s) { switch (s) { case "Aa": return "1"; case "BB": return "2"; case "": return "3"; case "C#": return "4"; case "\u0000x": return "5"; case "\ud83d\ude00": return "6"; default: return "?"; } }
    static String en(Colour c) { switch (c) { case RED: return "r"; case BLUE: return "b"; default: return c.nick(); } }
    static int nested(int a, int b) { int r = 0; outer: for (int i = 0; i < 5; i++) { switch (a) { case 1: switch (b) { case 1: r += 1; break; case 2: r += 2; continue outer; default: break outer; } case 2: r += 100; break; default: r -= 1; if (r < -3) break outer; } r *= 2; } return r; }
    static int expr(int x) { return switch (x) { case 1, 2, 3 -> { int y = x * x; yield y; } case 4 -> 40; case -1 -> throw new IllegalArgumentException("neg"); default -> x; }; }
    public static void run() {
        for (int i = -1; i < 9; i++) System.out.print(table(i) + " ");
        for (int i = 0; i < 5; i++) System.out.print(low(Integer.MIN_VALUE + i) + " " + high(Integer.MAX_VALUE - i) + " ");
        for (int i : new int[] { Integer.MIN_VALUE, -100000, -99999, 0, 99, Integer.MAX_VALUE, 5 }) System.out.print(lookup(i) + " ");
        for (String s : new String[] { "Aa", "BB", "", "C#", "\u0000x", "\ud83d\ude00", "x" }) System.out.print(str(s));
        for (Colour c : Colour.values()) System.out.print(en(c) + c.nick() + " ");
        for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) System.out.print(nested(a, b) + " ");
        for (int i = -1; i < 7; i++) try { System.out.print(expr(i) + " "); } catch (IllegalArgumentException e) { System.out.print(e.getMessage() + " " + e.getStackTrace()[0]); }
        System.out.println();
    }
}
