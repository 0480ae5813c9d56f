// Loads native libraries through the repository's Java loader. Every library is a copy of marker.c with its own trailing
// bytes; its JNI_OnLoad records which file was loaded, and the record is compared with what the loader should have done.
//   Loader <seed> <first> <last> <step> <workdir> <status> <marker library> <java> <class path>
import java.io.*;
import java.nio.*;
import java.nio.file.*;
import java.util.*;
import cz.adamh.utils.NativeUtils;

public class Loader {
    static long current; static PrintStream report; static MappedByteBuffer status; static String phase=""; static int violations=0;
    static void fail(String key, String msg) { if(violations++<20) { report.println("V\t"+current+"\t"+key+"\t"+msg.replace('\n',' ').replace('\t',' ')+"\t"+phase); report.flush(); } }
    static void phase(String s) { phase=s; byte[] b=s.getBytes(); status.position(16); status.put(b,0,Math.min(b.length,200)); status.put((byte)0); }
    static final TreeMap<String,Long> counters=new TreeMap<>(); static void ev(String k) { counters.merge(k,1L,Long::sum); }
    static final TreeSet<String> sigs=new TreeSet<>(), states=new TreeSet<>();
    static final class R { final SplittableRandom r; R(long s) { r=new SplittableRandom(s); } int range(int a,int b) { return r.nextInt(a,b+1); } boolean chance(double p) { return r.nextDouble()<p; } int pick(int... v) { return v[r.nextInt(v.length)]; } String pick(String... v) { return v[r.nextInt(v.length)]; } }
    static File work, tmp, cp, loads; static byte[] base; static String javaExe, classpath; static final String[] EXT={".so",".dll",".dylib"};
    static long fnv(byte[] b) { long h=1469598103934665603L; for(byte x:b) h=(h^(x&255))*1099511628211L; return h; }
    static int unique=0;
    /** a library of its own: the marker followed by bytes the dynamic linker ignores */
    static byte[] library(R r) { int extra=8+r.pick(0,0,r.range(0,3000),1024-(base.length+8)%1024,1024-(base.length+8)%1024+r.range(-1,1)+1024,r.range(0,60000)); byte[] b=Arrays.copyOf(base,base.length+extra); ByteBuffer.wrap(b,base.length,8).putInt((int)current).putInt(++unique); for(int i=base.length+8;i<b.length;i++) b[i]=(byte)r.range(0,255); return b; }
    static void put(File f, byte[] b) throws IOException { f.getParentFile().mkdirs(); try(FileOutputStream o=new FileOutputStream(f)) { o.write(b); } }
    static String line(byte[] b) { return String.format("%016x %d",fnv(b),b.length); }
    static List<String> taken() throws IOException { if(!loads.exists()) return new ArrayList<>(); List<String> l=Files.readAllLines(loads.toPath()); loads.delete(); return l; }
    static void expect(String what, List<String> got, byte[] want, boolean ret, boolean gotRet) { if(ret!=gotRet) fail(what+"-result",what+" returned "+gotRet+", expected "+ret); int n=want==null?0:1; if(got.size()!=n) fail(what+"-loads",what+" loaded "+got.size()+" libraries, expected "+n+" "+got); else if(n==1&&!got.get(0).startsWith(line(want)+" ")) fail(what+"-content",what+" loaded "+got.get(0)+", expected content "+line(want)); }
    static List<String> files(File d) { List<String> l=new ArrayList<>(); File[] fs=d.listFiles(); if(fs!=null) for(File f:fs) if(f.isDirectory()) l.addAll(files(f)); else l.add(f.getPath()); Collections.sort(l); return l; }
    static void wipe(File d) { File[] fs=d.listFiles(); if(fs!=null) for(File f:fs) { if(f.isDirectory()&&!Files.isSymbolicLink(f.toPath())) wipe(f); f.delete(); } }

    static void local(R r) throws IOException { String name="N"+current+"_"+r.range(0,99); File d=new File(r.chance(.5)?work:new File("rel"),"d"+current+(r.chance(.3)?"/x y":"")); File real=new File(System.getProperty("user.dir"),d.getPath()); if(d.isAbsolute()) real=d; boolean exists=r.chance(.95); if(exists) real.mkdirs(); byte[] want=null; String has="";
        if(exists) for(int i=0;i<3;i++) if(r.chance(i==0?.5:.35)) { byte[] b=library(r); put(new File(real,"lib"+name+EXT[i]),b); if(want==null) want=b; has+=EXT[i]; }
        if(exists) for(String n:new String[]{name+".so","lib"+name+".so.1","lib"+name+"x.so","lib"+name+".a","liblib"+name+".so","sub/lib"+name+".so"}) if(r.chance(.25)) { put(new File(real,n),library(r)); ev("decoys"); }
        phase("loadLocalPath "+d+" name "+name+" with"+has+(exists?"":" (no such directory)")); List<String> before=files(real), t0=files(tmp); NativeUtils.setLibraryName(name); boolean ret=false; try { ret=NativeUtils.loadLocalPath(d); } catch(Throwable e) { fail("local-raised","loadLocalPath raised "+e); }
        expect("local",taken(),want,want!=null,ret); if(!files(real).equals(before)||!files(tmp).equals(t0)) fail("local-files","loadLocalPath changed files: "+before+" to "+files(real)); ev(want==null?"local.absent":"local.loaded"); sigs.add("L"+has+exists+r.range(0,999)); states.add("local"+has+exists); wipe(real); real.delete(); }

    static void resource(R r) throws IOException { String name="R"+current+"_"+r.range(0,99), dir=r.pick("","a","a/b","arm64-v8a","p"+current), path="/"+dir+(r.chance(.4)&&!dir.isEmpty()?"/":""); int je=jarNames.isEmpty()?0:(int)(current/3%jarNames.size()); boolean jar=r.chance(.3)&&!jarNames.isEmpty()&&jarUsed.add(je); byte[] want=null; String has=""; boolean bad=false; List<File> made=new ArrayList<>();
        if(jar) { String[] e=jarNames.get(je).split(" "); name=e[0]; dir=e[1].equals("-")?"":e[1]; path="/"+dir+(r.chance(.4)&&!dir.isEmpty()?"/":""); has=" in jar "+e[2]; try(InputStream in=Loader.class.getResourceAsStream("/"+(dir.isEmpty()?"":dir+"/")+"lib"+name+e[2])) { want=in.readAllBytes(); } ev("jar.entries"); }
        else { boolean relative=r.chance(.04); for(int i=0;i<3;i++) if(r.chance(i==0?.5:.3)) { byte[] b=library(r); if(want==null&&!bad&&r.chance(.12)) { b=new byte[r.pick(0,1,100,1024,5000)]; for(int k=0;k<b.length;k++) b[k]=(byte)r.range(0,255); bad=true; } else if(want==null&&!bad) want=b; File f=new File(new File(cp,dir),"lib"+name+EXT[i]); put(f,b); made.add(f); has+=EXT[i]; }
            if(r.chance(.3)) { File f=new File(new File(cp,dir+"/deeper"),"lib"+name+".so"); put(f,library(r)); made.add(f); } if(r.chance(.3)) { File f=new File(new File(cp,dir),name+".so"); put(f,library(r)); made.add(f); }
            if(relative) { path=dir.isEmpty()?"a":dir; phase("loadLibraryFromJar "+path+" (relative)"); NativeUtils.setLibraryName(name); boolean refused=false; try { NativeUtils.loadLibraryFromJar(path); } catch(IllegalArgumentException e) { refused=true; } catch(Throwable e) { fail("relative-raised","raised "+e); } if(!refused) fail("relative-accepted","the relative path "+path+" was accepted"); if(taken().size()>0) fail("relative-loads","a library was loaded"); for(File f:made) f.delete(); ev("relative.refused"); return; } }
        phase("loadLibraryFromJar "+path+" name "+name+" with"+has+(bad?" (first is no library)":"")); List<String> t0=files(tmp); NativeUtils.setLibraryName(name); boolean ret=false, link=false; try { ret=NativeUtils.loadLibraryFromJar(path); } catch(UnsatisfiedLinkError e) { link=true; } catch(Throwable e) { fail("resource-raised","loadLibraryFromJar raised "+e); }
        if(bad) { List<String> l=taken(); if(!link&&!(ret&&l.size()==1)&&ret) fail("resource-not-a-library","returned true although nothing was loaded"); ev("resource.no.library"); } else { if(link) fail("resource-raised","loadLibraryFromJar raised UnsatisfiedLinkError"); else expect("resource",taken(),want,want!=null,ret); ev(want==null?"resource.absent":"resource.loaded"); }
        List<String> t1=files(tmp); if(!t1.equals(t0)) { fail("copy-left","a copy was left in the temporary directory: "+t1); wipe(tmp); } for(File f:made) if(!f.exists()) fail("resource-deleted","the resource itself was deleted"); else f.delete(); sigs.add("J"+has+dir+bad+r.range(0,999)); states.add("resource"+has.replaceAll("\\d","")+path.endsWith("/")+bad); }
    static List<String> jarNames=new ArrayList<>(); static final HashSet<Integer> jarUsed=new HashSet<>();

    /** delivers its bytes in arbitrary portions, counts how often it was closed, and may fail on the way */
    static class Stream extends InputStream { final byte[] b; int at=0, closed=0; final R r; final int mode, failAt; IOException raised; Stream(byte[] b, R r, int mode, int failAt) { this.b=b; this.r=r; this.mode=mode; this.failAt=failAt; }
        void trip() throws IOException { if(failAt>=0&&at>=failAt) { raised=new IOException("injected"); throw raised; } }
        @Override public int read() throws IOException { trip(); return at<b.length?b[at++]&255:-1; }
        @Override public int read(byte[] d, int o, int n) throws IOException { trip(); if(n==0) return 0; if(at>=b.length) return -1; int k=Math.min(n,b.length-at); if(mode==1) k=1; else if(mode==2) k=Math.min(k,r.range(1,1500)); else if(mode==3) k=Math.min(k,r.pick(1,2,1023,1024)); System.arraycopy(b,at,d,o,k); at+=k; return k; }
        @Override public int available() { return mode==0?b.length-at:0; }
        @Override public void close() { closed++; } }
    static boolean opened(File f) throws IOException { File[] fd=new File("/proc/self/fd").listFiles(); if(fd==null) return false; for(File x:fd) try { if(Files.readSymbolicLink(x.toPath()).toString().equals(f.getAbsolutePath())) return true; } catch(IOException ignore) {} return false; }
    static void copy(R r) throws IOException { int n=r.pick(0,1,r.range(0,50),1023,1024,1025,2048,r.range(0,5000),r.range(0,100000)); if(r.chance(.003)) n=r.range(1000000,3000000); byte[] b=new byte[n]; for(int i=0;i<n;i++) b[i]=(byte)r.range(-128,127); if(r.chance(.2)) Arrays.fill(b,(byte)0); int mode=r.range(0,3); if(mode==1&&n>20000) mode=2; int failAt=r.chance(.2)?r.range(0,n):-1; File dst=new File(work,"c"+current+".bin"); boolean old=r.chance(.3), directory=!old&&r.chance(.05); if(old) { byte[] o=new byte[r.range(1,120000)]; Arrays.fill(o,(byte)0x5a); put(dst,o); } if(directory) dst.mkdirs();
        phase("copy of "+n+" bytes mode "+mode+" failing at "+failAt+(old?" over a file":"")+(directory?" onto a directory":"")); Stream s=new Stream(b,r,mode,failAt); Throwable t=null; try { NativeUtils.copy(s,dst); } catch(Throwable e) { t=e; }
        if(directory) { if(!(t instanceof IOException)) fail("copy-target","copying onto a directory gave "+t); ev("copy.target.refused"); }
        else if(failAt>=0) { if(t==null||t!=s.raised) fail("copy-error","the error of the stream was not reported: "+t); ev("copy.stream.error"); }
        else if(t!=null) fail("copy-raised","copy raised "+t); else { byte[] got=Files.readAllBytes(dst.toPath()); if(!Arrays.equals(got,b)) fail("copy-content","the copy has "+got.length+" bytes of "+n+" or differs"); ev("copy.compared"); }
        if(s.closed==0) fail("copy-input-open","the input stream was not closed"); if(!directory&&opened(dst)) fail("copy-output-open","the output file is still open"); dst.delete(); sigs.add("C"+n+"/"+mode+"/"+failAt); states.add("copy"+mode+(failAt>=0)+old+directory); }

    /** a fresh virtual machine initialises BoofCPP with libraries in a subset of the places it looks at */
    static void init(R r) throws Exception { File d=new File(work,"i"+current); File cwd=new File(d,"w/c"), res=new File(d,"res"), t=new File(d,"tmp"), lp=new File(d,"lp"), log=new File(d,"loads"); for(File f:new File[]{cwd,res,t,lp}) f.mkdirs(); File[] places={lp,new File(cwd,"build/boofcpp-jni"),new File(d,"w/build/boofcpp-jni"),res,new File(res,"arm64-v8a"),new File(res,"armeabi-v7a")}; byte[] want=null; StringBuilder has=new StringBuilder(); double p=r.pick(1,2,5)*.1; boolean none=r.chance(.08), notmp=r.chance(.05); boolean expectTmp=false;
        for(int i=0;i<6&&!none;i++) for(int k=0;k<(i==0?1:3);k++) if(r.chance(p)) { byte[] b=library(r); put(new File(places[i],"libJNIBoofCPP"+EXT[k]),b); if(want==null&&!(notmp&&i>=3)) { want=b; expectTmp=i>=3; } has.append(' ').append(i).append(EXT[k]); }
        phase("class initialisation with"+has+(notmp?" and no temporary directory":"")); if(notmp) t.delete();
        ProcessBuilder pb=new ProcessBuilder(javaExe,"-Xshare:auto","-Xmx64m","-XX:+UseSerialGC","-XX:TieredStopAtLevel=1","-XX:-UsePerfData","-XX:-CreateCoredumpOnCrash","-XX:ErrorFile="+d+"/hs","-Djava.io.tmpdir="+t,"-Djava.library.path="+lp,"-cp",classpath+":"+res,"Probe"); pb.directory(cwd); pb.redirectErrorStream(true); pb.environment().put("VH_LOADS",log.getPath()); File out=new File(d,"out"); pb.redirectOutput(out); Process q=pb.start(); if(!q.waitFor(120,java.util.concurrent.TimeUnit.SECONDS)) { q.destroyForcibly(); q.waitFor(); ev("child.timeout"); wipe(d); d.delete(); return; }
        String text=new String(Files.readAllBytes(out.toPath())); if(!text.contains("PROBE STARTED")) { ev("child.not.started"); wipe(d); d.delete(); return; }
        List<String> l=log.exists()?Files.readAllLines(log.toPath()):new ArrayList<>(); boolean loaded=text.contains("PROBE LOADED"), installed=text.contains("PROBE INSTALLED"); if(!loaded) fail("init-raised","class initialisation failed: "+text); else if(!installed) fail("init-hooks","not everything is installed: "+text);
        if(l.size()!=(want==null?0:1)) fail("init-loads",l.size()+" libraries were loaded: "+l); else if(want!=null&&!l.get(0).startsWith(line(want)+" ")) fail("init-order","another library than the first one was loaded: "+l); if(loaded&&want==null&&!text.contains("Failed")) fail("init-silent","nothing was loaded and nothing was reported"); if(loaded&&want!=null&&text.contains("Failed to load native library")) fail("init-report","a failure was reported although a library was loaded");
        if(q.exitValue()!=0) fail("init-exit","the process ended with "+q.exitValue()+": "+text); String[] left=t.list(); if(left!=null&&left.length>0) fail("init-left","left in the temporary directory after the end: "+Arrays.toString(left)); ev(want==null?"init.nothing":expectTmp?"init.from.jar":"init.from.file"); if(notmp) ev("init.no.temporary.directory"); sigs.add("I"+has); states.add("I"+has); wipe(d); d.delete(); }

    public static void main(String[] a) throws Exception { long seed=Long.parseLong(a[0]),first=Long.parseLong(a[1]),last=Long.parseLong(a[2]),step=Long.parseLong(a[3]); work=new File(a[4]); tmp=new File(System.getProperty("java.io.tmpdir")); cp=new File(work,"cp"); loads=new File(System.getenv("VH_LOADS")); report=new PrintStream(new FileOutputStream(a[5]+".report")); base=Files.readAllBytes(Paths.get(a[6])); javaExe=a[7]; classpath=a[8];
        try(RandomAccessFile f=new RandomAccessFile(a[5],"rw")) { f.setLength(256); status=f.getChannel().map(java.nio.channels.FileChannel.MapMode.READ_WRITE,0,256); } status.order(ByteOrder.LITTLE_ENDIAN);
        try(InputStream in=Loader.class.getResourceAsStream("/names.txt")) { if(in!=null) jarNames=new ArrayList<>(Arrays.asList(new String(in.readAllBytes()).trim().split("\n"))); } long n=0;
        for(long c=first;c<last;c+=step) { current=c; status.putLong(0,c); R r=new R((seed*0x9E3779B97F4A7C15L)^(c*0xD1342543DE82EF95L)); int k=r.range(0,99); if(k<3) init(r); else if(k<40) copy(r); else if(k<70) resource(r); else local(r); n++; }
        StringBuilder sb=new StringBuilder("R\t{\"evaluations\":"+n+",\"counters\":{"); boolean f1=true; for(Map.Entry<String,Long> e:counters.entrySet()) { sb.append(f1?"":",").append('"').append(e.getKey()).append("\":").append(e.getValue()); f1=false; } sb.append("},\"sigs\":"); list(sb,sigs); sb.append(",\"states\":"); list(sb,states); sb.append(",\"samples\":[\"case "+current+": "+phase.replace("\"","'")+"\"]}"); report.println(sb); report.println("E"); report.flush(); }
    static void list(StringBuilder sb, Collection<String> l) { sb.append('['); boolean f=true; for(String s:l) { sb.append(f?"":",").append('"').append(s).append('"'); f=false; } sb.append(']'); }
}
class Probe {
    public static void main(String[] a) throws Exception { System.out.println("PROBE STARTED"); System.out.flush(); org.boofcpp.BoofCPP.loadlib(); System.out.println("PROBE LOADED"); org.boofcpp.BoofCPP.initialize(); String[][] hooks={{"boofcv.factory.filter.binary.BOverrideFactoryThresholdBinary","globalFixed","globalOtsu","blockMinMax","blockMean","blockOtsu","localMean"},{"boofcv.alg.filter.blur.BOverrideBlurImageOps","mean","gaussian"},{"boofcv.alg.filter.convolve.BOverrideConvolveImageNormalized","horizontal","vertical"},{"boofcv.alg.filter.convolve.BOverrideConvolveImage","horizontal","vertical","convolve"},{"boofcv.factory.filter.binary.BOverrideFactoryBinaryContourFinder","chang2004"}}; boolean all=true;
        for(String[] h:hooks) for(int i=1;i<h.length;i++) { java.lang.reflect.Field f=Class.forName(h[0]).getField(h[i]); Object o=f.get(null); if(o==null||!o.getClass().getName().startsWith("org.boofcpp")) { System.out.println("PROBE MISSING "+h[0]+"."+h[i]+" "+o); all=false; } } if(all) System.out.println("PROBE INSTALLED"); System.out.flush(); }
}
