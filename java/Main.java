package progs;
public class Main {
    public static void main(String[] args) throws Exception {
        for (String a : args) { System.out.println("== " + a); try { Class.forName("progs." + a).getMethod("run").invoke(null); } catch (java.lang.reflect.InvocationTargetException e) { System.out.println(Flow.trace(e.getCause())); } }
    }
}
