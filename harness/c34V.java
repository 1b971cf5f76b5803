import java.lang.reflect.*;
import java.net.URI;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
public class c34V {
  static String d(Class<?> c) {
    if (c==void.class) return "V";
    String s=Array.newInstance(c,0).getClass().getName().substring(1).replace('.','/');
    return s;
  }
  public static void main(String[] a) throws Throwable {
    if (a[0].equals("sample")) {
      Path root=FileSystems.getFileSystem(URI.create("jrt:/")).getPath("/modules");
      List<Path> all;
      try (Stream<Path> s=Files.walk(root)) {all=s.filter(p->p.toString().endsWith(".class")).sorted().collect(Collectors.toList());}
      Collections.shuffle(all,new Random(Long.parseLong(a[2])));
      int n=Math.min(all.size(),Integer.parseInt(a[3]));
      List<Path> pick=new ArrayList<>(all.subList(0,n));
      for (Path p: all) if (p.getFileName().toString().equals("module-info.class")) pick.add(p);
      int i=0;
      for (Path p: pick) Files.write(Paths.get(a[1],"j"+(i++)+".class"),Files.readAllBytes(p));
      return;
    }
    for (int i=0; i<a.length; ++i) {
      System.out.println("CLASS "+a[i]);
      try {
        Class<?> c=Class.forName(a[i]);
        System.out.println("super "+c.getSuperclass().getName());
        System.out.println("flags "+Modifier.toString(c.getModifiers()));
        for (Method m: c.getDeclaredMethods()) {
          StringBuilder s=new StringBuilder("(");
          for (Class<?> p: m.getParameterTypes()) s.append(d(p));
          System.out.println("method "+Modifier.toString(m.getModifiers())+" "+m.getName()+" "+s+")"+d(m.getReturnType()));
        }
        for (Constructor<?> m: c.getDeclaredConstructors()) System.out.println("ctor "+Modifier.toString(m.getModifiers())+" "+m.getParameterCount());
        System.out.println("fields "+c.getDeclaredFields().length);
        try {c.getDeclaredConstructor().newInstance(); System.out.println("new returned");}
        catch (InvocationTargetException e) {System.out.println("new "+e.getCause().getClass().getSimpleName()+(e.getCause().getMessage().contains("auto")? " auto": " "+e.getCause().getMessage()));}
        catch (Throwable e) {System.out.println("new "+e);}
      }
      catch (Throwable e) {System.out.println("error "+e);}
    }
    System.out.println("DONE");
  }
}
