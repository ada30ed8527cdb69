package progs;
import java.lang.annotation.*; import java.lang.reflect.*; import java.util.*;
public class Reflect {
    enum Level { LOW, HIGH }
    @Retention(RetentionPolicy.RUNTIME) @interface Leaf { int value() default 7; String[] names() default { "a", "" }; }
    @Retention(RetentionPolicy.RUNTIME) @Target({ ElementType.TYPE, ElementType.METHOD, ElementType.FIELD, ElementType.PARAMETER, ElementType.CONSTRUCTOR }) @interface Big { boolean z() default true; byte b() default -1; char c() default '\uffff'; short s() default -300; int i() default Integer.MIN_VALUE; long l() default Long.MAX_VALUE; float f() default -0f; double d() default Double.NaN; String str() default "\ud83d\0"; Class<?> k() default int[][].class; Level e() default Level.HIGH; Leaf leaf() default @Leaf(9); Leaf[] leaves() default { @Leaf, @Leaf(value = 1, names = {}) }; Class<?>[] ks() default { void.class, String.class }; long[] ls() default { 1, -1 }; }
    @Retention(RetentionPolicy.RUNTIME) @Target({ ElementType.TYPE_USE, ElementType.TYPE_PARAMETER }) @interface Use { String value() default ""; }
    @Big @Leaf static class Base<@Use("T") T extends @Use("bound") Number & @Use("i") Comparable<@Use("arg") T>, U> implements java.io.Serializable { @Deprecated protected transient volatile @Use("f") T f; @Big(i = 5) public static final List<? super @Use("w") Integer> @Use("arr") [] @Use("arr2") [] g = null; protected <X extends Exception> @Use("ret") Map<String, @Use("in") X[]> m(@Big(str = "p") final int a, @Leaf(3) @Use("par") String b, U... rest) throws X, java.io.@Use("thr") IOException { return null; } @Big Base() {} private Base(@Leaf int a, T t) {} static void many(long a, double b, @Leaf long c) {} }
    static abstract class Mid extends @Use("super") Base<@Use("sa") Integer, Map.Entry<String, int[]>> implements @Use("if") Comparable<Mid>, Cloneable { class In<A> { class In2<B> { Map<A, ? extends B> q; } } }
    interface Fun { default strictfp void dd() {} static void st() {} void ab(); }
    static String ann(AnnotatedElement e) { List<String> l = new ArrayList<>(); for (Annotation a : e.getAnnotations()) l.add(esc(a.toString())); return l.toString(); }
    static String esc(String s) { StringBuilder b = new StringBuilder(); for (char c : s.toCharArray()) if (c < 32 || c > 126) b.append("\\u" + Integer.toHexString(c)); else b.append(c); return b.toString(); }
    static String at(AnnotatedType t) { if (t == null) return "-"; StringBuilder b = new StringBuilder(t.getType().getTypeName() + ann(t)); if (t instanceof AnnotatedParameterizedType) for (AnnotatedType x : ((AnnotatedParameterizedType) t).getAnnotatedActualTypeArguments()) b.append("<" + at(x) + ">"); if (t instanceof AnnotatedArrayType) b.append("[" + at(((AnnotatedArrayType) t).getAnnotatedGenericComponentType()) + "]"); if (t instanceof AnnotatedWildcardType) for (AnnotatedType x : ((AnnotatedWildcardType) t).getAnnotatedLowerBounds()) b.append("?" + at(x)); return b.toString(); }
    static String tp(GenericDeclaration g) { StringBuilder b = new StringBuilder(); for (TypeVariable<?> v : g.getTypeParameters()) { b.append(v + ann(v) + ":"); for (AnnotatedType x : v.getAnnotatedBounds()) b.append(at(x) + "&"); } return b.toString(); }
    static void show(Class<?> c) {
        System.out.println(c.toGenericString() + " " + Integer.toHexString(c.getModifiers()) + " " + ann(c) + " " + tp(c) + " super " + at(c.getAnnotatedSuperclass()) + " " + c.getGenericSuperclass() + " host " + c.getNestHost() + " outer " + c.getDeclaringClass() + " enc " + c.getEnclosingClass() + " " + c.getEnclosingMethod() + " " + c.getEnclosingConstructor() + c.isAnonymousClass() + c.isLocalClass() + c.isMemberClass() + c.isSynthetic() + c.isEnum() + c.isAnnotation() + c.getSimpleName());
        for (AnnotatedType t : c.getAnnotatedInterfaces()) System.out.println("  implements " + at(t));
        TreeSet<String> o = new TreeSet<>();
        for (Field f : c.getDeclaredFields()) o.add("  F " + f.toGenericString() + " " + f.getModifiers() + f.isSynthetic() + ann(f) + at(f.getAnnotatedType()));
        List<Executable> ex = new ArrayList<>(); ex.addAll(Arrays.asList(c.getDeclaredMethods())); ex.addAll(Arrays.asList(c.getDeclaredConstructors()));
        for (Executable m : ex) { StringBuilder b = new StringBuilder("  M " + m.toGenericString() + " " + m.getModifiers() + m.isSynthetic() + m.isVarArgs() + ann(m) + tp(m) + " returns " + at(m.getAnnotatedReturnType())); for (Parameter p : m.getParameters()) b.append(" P " + p.getName() + p.getModifiers() + p.isNamePresent() + p.getParameterizedType() + ann(p) + at(p.getAnnotatedType())); for (AnnotatedType t : m.getAnnotatedExceptionTypes()) b.append(" throws " + at(t)); if (m instanceof Method) { Object d = ((Method) m).getDefaultValue(); b.append(" default " + (d == null ? null : d.getClass().isArray() ? esc(Arrays.deepToString(new Object[] { d })) : esc(d.toString()))); b.append(((Method) m).isBridge()).append(((Method) m).isDefault()); } o.add(b.toString()); }
        for (String s : o) System.out.println(s);
        TreeSet<String> n = new TreeSet<>(); for (Class<?> k : c.getNestMembers()) n.add(k.getName()); System.out.println("  nest " + n); n.clear(); for (Class<?> k : c.getDeclaredClasses()) n.add(k.getName() + Modifier.toString(k.getModifiers())); System.out.println("  inner " + n);
    }
    public static void run() throws Exception {
        class Local { } Object anon = new Object() { int z; }; Runnable r = new Runnable() { public void run() { } };
        for (Class<?> c : new Class<?>[] { Reflect.class, Level.class, Leaf.class, Big.class, Use.class, Base.class, Mid.class, Mid.In.class, Mid.In.In2.class, Fun.class, Local.class, anon.getClass(), r.getClass() }) show(c);
        System.out.println(Reflect.class.getPackage().getName() + Level.valueOf("LOW") + Level.class.getEnumConstants().length);
    }
}
