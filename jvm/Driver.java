// Calls the Java API of the native library in a real virtual machine, watches the Java objects around every call and
// records parameters, input and output of every call for the offline checker (jvmcheck.cpp).
//   Driver <seed> <first> <last> <step> <log> <status> <library>
import boofcv.abst.filter.binary.*;
import boofcv.alg.filter.binary.ContourPacked;
import boofcv.alg.filter.blur.BOverrideBlurImageOps;
import boofcv.alg.filter.convolve.*;
import boofcv.core.image.border.*;
import boofcv.factory.filter.binary.*;
import boofcv.struct.*;
import boofcv.struct.convolve.*;
import boofcv.struct.image.*;
import georegression.struct.point.Point2D_I32;
import org.ddogleg.struct.*;
import java.io.*;
import java.lang.reflect.Array;
import java.nio.*;
import java.util.*;

public class Driver {
    static long current; static PrintStream report; static MappedByteBuffer status; static long violations=0;
    static synchronized void fail(String key, String msg) { report.println("V\t"+current+"\t"+key.replace(' ','-')+"\t"+msg.replace('\n',' ').replace('\t',' ')+"\t"+phase.get()); report.flush(); violations++; }
    static final ThreadLocal<String> phase=ThreadLocal.withInitial(()->"");
    static void phase(String s) { phase.set(s); if(Thread.currentThread().getName().equals("main")&&status!=null) { byte[] b=s.getBytes(); status.position(16); status.put(b,0,Math.min(b.length,200)); status.put((byte)0); } }
    static final TreeMap<String,Long> counters=new TreeMap<>();
    static synchronized void ev(String k) { counters.merge("jvm."+k,1L,Long::sum); }

    static class R { final SplittableRandom r; R(long s) { r=new SplittableRandom(s); } int range(int a,int b) { return r.nextInt(a,b+1); } double real(double a,double b) { return a+(b-a)*r.nextDouble(); } boolean chance(double p) { return r.nextDouble()<p; }
        int pick(int... v) { return v[r.nextInt(v.length)]; } double pickd(double... v) { return v[r.nextInt(v.length)]; } }

    // ------------------------------------------------------------------ images with a surrounding that is watched
    static class Img { ImageGray im; Object before; int si,st,w,h; boolean sub;
        void mark() { Object d=im._getData(); int n=Array.getLength(d); before=Array.newInstance(d.getClass().getComponentType(),n); System.arraycopy(d,0,before,0,n); si=im.startIndex; st=im.stride; w=im.width; h=im.height; sub=im.subImage; }
        boolean fields() { return si==im.startIndex&&st==im.stride&&w==im.width&&h==im.height&&sub==im.subImage; }
        static boolean bits(Object a, Object b) { if(a instanceof byte[]) return Arrays.equals((byte[])a,(byte[])b); if(a instanceof short[]) return Arrays.equals((short[])a,(short[])b); if(a instanceof int[]) return Arrays.equals((int[])a,(int[])b); if(a instanceof long[]) return Arrays.equals((long[])a,(long[])b); if(a instanceof float[]) return Arrays.equals((float[])a,(float[])b); return Arrays.equals((double[])a,(double[])b); }
        boolean same() { return fields()&&bits(before,im._getData()); }
        /** nothing outside of the window changed; null when fine */
        String outside() { Object d=im._getData(); int n=Array.getLength(d); if(n!=Array.getLength(before)) return "the array was replaced"; for(int i=0;i<n;i++) { int o=i-im.startIndex; boolean in= o>=0&&im.stride>0&&o/im.stride<im.height&&o%im.stride<im.width; if(!in&&!Array.get(d,i).equals(Array.get(before,i))) return "element "+i; } return null; } }
    static void put(ImageGray im, int i, R r, int lo, int hi) { Object d=im._getData(); if(d instanceof byte[]) ((byte[])d)[i]=(byte)r.range(lo,hi); else if(d instanceof short[]) ((short[])d)[i]=(short)r.range(lo,hi); else if(d instanceof int[]) ((int[])d)[i]=r.range(lo,hi); else if(d instanceof long[]) ((long[])d)[i]=r.range(lo,hi); else if(d instanceof float[]) ((float[])d)[i]=(float)r.real(lo,hi); else ((double[])d)[i]=r.real(lo,hi); }
    static ImageGray make(int type,int w,int h) { switch(type) { case 0: return new GrayU8(w,h); case 1: return new GrayF32(w,h); case 2: return new GrayS16(w,h); case 3: return new GrayS32(w,h); case 4: return new GrayU16(w,h); case 5: return new GrayS64(w,h); case 6: return new GrayF64(w,h); default: return new GrayS8(w,h); } }
    /** plain image, image in an array which is too large, or window of a larger image; lo..hi pixel values */
    static Img image(R r,int type,int w,int h,int lo,int hi) { int k=r.range(0,3); Img g=new Img(); int off=0,st=w; if(k==0) g.im=make(type,w,h); else if(k==1) { g.im=make(type,w+r.range(0,4),h+r.range(0,3)); g.im.stride=w; ev("image.reused"); } else { int a=r.range(0,4),b=r.range(0,4); g.im=make(type,w+a+r.range(0,4),h+b+r.range(0,4)); st=g.im.stride; off=b*st+a; g.im.subImage=true; ev("image.sub"); }
        int n=Array.getLength(g.im._getData()); for(int i=0;i<n;i++) put(g.im,i,r,lo,hi); g.im.width=w; g.im.height=h; g.im.stride=st; g.im.startIndex=off; g.mark(); return g; }
    static int[] shape(R r,int m) { int w=r.range(1,m),h=r.range(1,m); if(r.chance(.05)) w=0; if(r.chance(.05)) h=0; if(r.chance(.1)) { w=r.range(1,3); h=r.range(20,90); } else if(r.chance(.1)) { h=r.range(1,3); w=r.range(20,90); } else if(r.chance(.01)) { w=r.range(150,260); h=r.range(100,200); } return new int[]{w,h}; }

    // ------------------------------------------------------------------ the log
    static void pixels(DataOutputStream o, ImageGray im) throws IOException { Object d=im._getData(); for(int y=0;y<im.height;y++) for(int x=0;x<im.width;x++) { int i=im.startIndex+y*im.stride+x; if(d instanceof byte[]) o.writeByte(((byte[])d)[i]); else if(d instanceof short[]) o.writeShort(((short[])d)[i]); else if(d instanceof int[]) o.writeInt(((int[])d)[i]); else o.writeInt(Float.floatToRawIntBits(((float[])d)[i])); } }
    static DataOutputStream log; static synchronized void write(ByteArrayOutputStream b) throws IOException { b.writeTo(log); }

    // ------------------------------------------------------------------ threshold filters
    static class TP { int kind,type; boolean down,local,otsu2; double a,b,scale,tuning,spread; ConfigLength len;
        public String toString() { return "filter "+kind+" type "+type+" down="+down+" local="+local+" otsu2="+otsu2+" a="+a+" b="+b+" scale="+scale+" tuning="+tuning+" spread="+spread+" length="+len.length+" fraction="+len.fraction; } }
    static TP tparam(R r,int kind) { TP p=new TP(); p.kind=kind; p.type=r.range(0,1); boolean in=p.type==0; p.down=r.chance(.5); p.local=r.chance(.6); p.otsu2=r.chance(.4); p.scale=r.pickd(1,.95,1.1,.5); if(kind==3&&in&&p.scale>1) p.scale=1; p.tuning=r.pickd(0,.5,3); p.spread=r.pickd(-1,0,5,30);
        p.a=in?r.range(0,255):r.real(-20,270); p.b=255; if(kind==1) { p.a=in?0:-20; p.b=in?255:270; } p.len= r.chance(.4)? ConfigLength.relative(r.real(.1,1),r.range(2,5)) : ConfigLength.fixed(r.range(2,9)); return p; }
    @SuppressWarnings("unchecked") static InputToBinary filter(TP p) { Class c= p.type==0?GrayU8.class:p.type==1?GrayF32.class:p.type==4?GrayU16.class:p.type==2?GrayS16.class:p.type==3?GrayS32.class:p.type==5?GrayS64.class:p.type==6?GrayF64.class:GrayS8.class; switch(p.kind) {
        case 0: return BOverrideFactoryThresholdBinary.globalFixed.handle(p.a,p.down,c); case 1: return BOverrideFactoryThresholdBinary.globalOtsu.handle(p.a,p.b,p.down,c); case 2: return BOverrideFactoryThresholdBinary.localMean.handle(p.len,p.scale,p.down,c);
        case 3: return BOverrideFactoryThresholdBinary.blockMean.handle(p.len,p.scale,p.down,p.local,c); case 4: return BOverrideFactoryThresholdBinary.blockMinMax.handle(p.len,p.scale,p.down,p.spread,p.local,c); default: return BOverrideFactoryThresholdBinary.blockOtsu.handle(p.otsu2,p.len,p.tuning,p.scale,p.down,p.local,c); } }
    static void destroy(InputToBinary f) { try { f.getClass().getMethod("nativedestroy").invoke(f); } catch(java.lang.reflect.InvocationTargetException e) { fail("destroy","nativedestroy raised "+e.getCause()); } catch(ReflectiveOperationException e) { ev("no.destroy.method"); } }
    static void around(Img in, Img out, boolean reshaped, String what) { if(!in.same()) fail("input-modified:"+what,what+" changed its input image"); if(out==null) return; if(reshaped) return; if(!out.fields()) fail("output-fields:"+what,what+" changed the fields of its output"); String s=out.outside(); if(s!=null) fail("wrote-outside:"+what,what+" wrote outside of the output image: "+s); }
    /** an output of the right shape, or sometimes an image of another shape which is to be reshaped */
    static Img output(R r,int type,int w,int h,boolean[] reshaped) { if(r.chance(.25)) { Img o=new Img(); o.im=make(type,r.range(1,40),r.range(1,40)); int n=Array.getLength(o.im._getData()); for(int i=0;i<n;i++) put(o.im,i,r,0,100); o.mark(); reshaped[0]=true; ev("output.reshaped"); return o; } reshaped[0]=false; return image(r,type,w,h,0,100); }
    @SuppressWarnings("unchecked") static void threshold(R r,int kind,boolean gc) throws IOException { TP p=tparam(r,kind); phase(p.toString()); InputToBinary f=filter(p); String what="threshold"+kind; if(f.getInputType().getImageClass()!=(p.type==0?GrayU8.class:GrayF32.class)) fail("input-type:"+what,"getInputType is "+f.getInputType().getImageClass());
        ByteArrayOutputStream bo=new ByteArrayOutputStream(); DataOutputStream o=new DataOutputStream(bo); int n=r.range(1,3); o.writeByte('T'); o.writeLong(current); o.writeInt(kind); o.writeByte(p.type); o.writeByte(p.down?1:0); o.writeByte(p.local?1:0); o.writeByte(p.otsu2?1:0); for(double d:new double[]{p.a,p.b,p.scale,p.tuning,p.spread,p.len.length,p.len.fraction}) o.writeDouble(d); o.writeInt(n);
        for(int k=0;k<n;k++) { int[] s=shape(r,30); boolean[] rs=new boolean[1]; Img in= p.type==0?image(r,0,s[0],s[1],0,255):image(r,1,s[0],s[1],-20,270), out=output(r,0,s[0],s[1],rs); if(gc) System.gc(); o.writeInt(s[0]); o.writeInt(s[1]); pixels(o,in.im); boolean ok=false;
            try { f.process(in.im,(GrayU8)out.im); ok=true; } catch(RuntimeException e) { ev("exception"); } around(in,out,rs[0],what); if(out.im.width!=s[0]||out.im.height!=s[1]) { fail("output-shape:"+what,"output is "+out.im.width+"x"+out.im.height+" for an input of "+s[0]+"x"+s[1]); return; } o.writeByte(ok?1:0); if(ok) pixels(o,out.im); }
        if(r.chance(.7)) { destroy(f); ev("destroyed"); try { Img in=image(r,p.type,5,5,0,255); f.process(in.im,new GrayU8(5,5)); fail("used-after-destroy:"+what,"process of a destroyed object raised nothing"); } catch(RuntimeException e) { ev("used.after.destroy.refused"); } if(r.chance(.5)) destroy(f); } else ev("left.to.the.finalizer");
        write(bo); ev(what); }

    // ------------------------------------------------------------------ operations without state
    static ImageBorder border(R r,int b,boolean f) { BorderIndex1D row,col; switch(b) { case 1: row=new BorderIndex1D_Extend(); col=new BorderIndex1D_Extend(); break; case 3: row=new BorderIndex1D_Reflect(); col=new BorderIndex1D_Reflect(); break; case 4: row=new BorderIndex1D_Wrap(); col=new BorderIndex1D_Wrap(); break; default: return f?new ImageBorderValue.Value_F32(r.chance(.3)?-0f:0f):new ImageBorderValue.Value_I(0); } return f?new ImageBorder1D_F32(row,col):new ImageBorder1D_S32(row,col); }
    static KernelBase kernel(R r,int kind,boolean f,int w,int off,DataOutputStream o) throws IOException { int dim=kind==4?2:1,n=dim==2?w*w:w; boolean norm=kind>=5; int extra=r.chance(.2)?r.range(1,8):0; if(extra>0) ev("kernel.array.longer"); if(f) { float[] d=new float[n+extra]; for(int i=n;i<d.length;i++) d[i]=i*3+1; for(int i=0;i<n;i++) { d[i]=(float)(norm?r.real(.1,2):r.real(-2,2)); if(o!=null) o.writeInt(Float.floatToRawIntBits(d[i])); } return dim==2?new Kernel2D_F32(d,w,off):new Kernel1D_F32(d,w,off); }
        int[] d=new int[n+extra]; for(int i=n;i<d.length;i++) d[i]=i*3+1; for(int i=0;i<n;i++) { d[i]=norm?r.range(1,9):r.range(-9,9); if(o!=null) o.writeInt(d[i]); } return dim==2?new Kernel2D_S32(d,w,off):new Kernel1D_S32(d,w,off); }
    static final String[] SN={"mean","gaussian","horizontal","vertical","convolve","normalized.horizontal","normalized.vertical"};
    @SuppressWarnings("unchecked") static void call(int kind,KernelBase k,ImageBase in,ImageBase out,int radius,double sigma,ImageBase storage,ImageBorder b) { switch(kind) { case 0: BOverrideBlurImageOps.mean.processMean(in,out,radius,storage); break; case 1: BOverrideBlurImageOps.gaussian.processGaussian(in,out,sigma,radius,storage); break;
        case 2: BOverrideConvolveImage.horizontal.horizontal((Kernel1D)k,in,out,b); break; case 3: BOverrideConvolveImage.vertical.vertical((Kernel1D)k,in,out,b); break; case 4: BOverrideConvolveImage.convolve.convolve((Kernel2D)k,in,out,b); break;
        case 5: BOverrideConvolveImageNormalized.horizontal.horizontal((Kernel1D)k,in,out); break; default: BOverrideConvolveImageNormalized.vertical.vertical((Kernel1D)k,in,out); } }
    static void stateless(R r,int kind,boolean gc) throws IOException { boolean conv=kind>=2&&kind<=4; int it=r.chance(.5)?1:0, ot= it==1?1:conv?r.pick(2,3,4):0; int radius=r.range(1,6); double sigma=r.real(.4,3); if(kind==1) { int m=r.range(0,2); if(m==0) radius=r.range(-1,0); else if(m==1) sigma=-1; } int b=r.pick(1,3,4,5), kw=r.range(1,kind==4?5:9), ko=r.chance(.5)?kw/2:r.range(0,kw-1); int[] s=shape(r,24);
        String what=SN[kind]; phase(what+" type "+it+"->"+ot+" radius "+radius+" sigma "+sigma+" border "+b+" kernel "+kw+" offset "+ko+" image "+s[0]+"x"+s[1]);
        ByteArrayOutputStream bo=new ByteArrayOutputStream(); DataOutputStream o=new DataOutputStream(bo); o.writeByte('S'); o.writeLong(current); o.writeInt(kind); o.writeByte(it); o.writeByte(ot==4?2:ot); o.writeInt(radius); o.writeDouble(sigma); o.writeInt(b); o.writeInt(kw); o.writeInt(ko); KernelBase k=kernel(r,kind,it==1,kw,ko,o);
        boolean[] rs=new boolean[1]; Img in= it==0?image(r,0,s[0],s[1],0,255):image(r,1,s[0],s[1],-20,270), out=kind>=5?image(r,ot,s[0],s[1],0,100):output(r,ot,s[0],s[1],rs), st=null; boolean[] srs=new boolean[1]; if(kind<2&&r.chance(.7)) st=output(r,it,s[0],s[1],srs);
        ImageBorder bd=conv?border(r,b,it==1):null; if(gc) System.gc(); o.writeInt(s[0]); o.writeInt(s[1]); pixels(o,in.im); boolean ok=false; try { call(kind,k,in.im,out.im,radius,sigma,st==null?null:st.im,bd); ok=true; } catch(RuntimeException e) { fail("outcome:"+what,what+" raised "+e); return; }
        around(in,out,rs[0],what); if(out.im.width!=s[0]||out.im.height!=s[1]) { fail("output-shape:"+what,"output is "+out.im.width+"x"+out.im.height); return; } if(st!=null&&!srs[0]) { String q=st.outside(); if(q!=null||!st.fields()) fail("wrote-outside:"+what,"storage changed outside of its image: "+q); } o.writeByte(1); pixels(o,out.im); write(bo); ev(what); }

    // ------------------------------------------------------------------ contours
    static void contours(R r,boolean gc) throws IOException { BinaryLabelContourFinder f=BOverrideFactoryBinaryContourFinder.chang2004.createChang2004(); int n=r.range(1,3); ByteArrayOutputStream bo=new ByteArrayOutputStream(); DataOutputStream o=new DataOutputStream(bo); o.writeByte('C'); o.writeLong(current); o.writeInt(n);
        boolean eight=f.getConnectRule()==ConnectRule.EIGHT; int mn=f.getMinContour(),mx=f.getMaxContour(); boolean inner=f.isSaveInternalContours(); FastQueue<Point2D_I32> q=new FastQueue<>(Point2D_I32.class,true);
        for(int k=0;k<n;k++) { if(r.chance(.6)) { eight=r.chance(.5); f.setConnectRule(eight?ConnectRule.EIGHT:ConnectRule.FOUR); } if(r.chance(.3)) f.setMinContour(mn=r.range(0,20)); if(r.chance(.3)) f.setMaxContour(mx=r.chance(.5)?Integer.MAX_VALUE:r.range(1,60)); if(r.chance(.3)) f.setSaveInnerContour(inner=r.chance(.5));
            if(f.getMinContour()!=mn||f.getMaxContour()!=mx||f.isSaveInternalContours()!=inner||f.getConnectRule()!=(eight?ConnectRule.EIGHT:ConnectRule.FOUR)) fail("settings:chang","settings read back differ");
            int[] s=shape(r,40); if(r.chance(.05)) { s[0]=r.range(80,160); s[1]=r.range(80,160); ev("chang.large"); } phase("contours of "+s[0]+"x"+s[1]+" eight="+eight+" min="+mn+" max="+mx+" inner="+inner); Img in=image(r,0,s[0],s[1],0,1); double d=r.pickd(.2,.5,.5,.7,.9); byte[] a=((GrayU8)in.im).data; for(int i=0;i<a.length;i++) a[i]=(byte)(r.chance(d)?1:0); in.mark(); boolean[] rs=new boolean[1]; Img out=output(r,3,s[0],s[1],rs); if(gc) System.gc();
            o.writeByte(eight?1:0); o.writeInt(mn); o.writeInt(mx); o.writeByte(inner?1:0); o.writeInt(s[0]); o.writeInt(s[1]); pixels(o,in.im); try { f.process((GrayU8)in.im,(GrayS32)out.im); } catch(RuntimeException e) { fail("outcome:chang","process raised "+e); return; } around(in,out,rs[0],"chang"); if(out.im.width!=s[0]||out.im.height!=s[1]) { fail("output-shape:chang","labels are "+out.im.width+"x"+out.im.height); return; } pixels(o,out.im);
            List<ContourPacked> l=f.getContours(); o.writeInt(l.size()); for(ContourPacked c:l) { o.writeInt(c.id); int[] ids=new int[1+c.internalIndexes.size]; ids[0]=c.externalIndex; for(int i=1;i<ids.length;i++) ids[i]=c.internalIndexes.get(i-1); o.writeInt(ids.length); for(int id:ids) { o.writeInt(id); if(id<0) { o.writeInt(0); continue; } f.loadContour(id,q); o.writeInt(q.size); for(int i=0;i<q.size;i++) { o.writeInt(q.get(i).x); o.writeInt(q.get(i).y); }
                if(q.size>0&&r.chance(.1)) { List<Point2D_I32> w=new ArrayList<>(); for(int i=0;i<q.size;i++) w.add(new Point2D_I32(q.get(i).x+1000,i)); List<Point2D_I32> old=new ArrayList<>(); for(int i=0;i<q.size;i++) old.add(new Point2D_I32(q.get(i).x,q.get(i).y)); f.writeContour(id,w); f.loadContour(id,q); for(int i=0;i<w.size();i++) if(q.get(i).x!=w.get(i).x||q.get(i).y!=i) { fail("write:chang","a written contour reads back differently"); break; } f.writeContour(id,old); ev("chang.written"); } } } ev("chang"); }
        if(f instanceof org.boofcpp.contour.NativeChang2004&&r.chance(.7)) { org.boofcpp.contour.NativeChang2004 g=(org.boofcpp.contour.NativeChang2004)f; g.native_destroy(); ev("destroyed"); for(int k=0;k<8;k++) try { switch(k) { case 0: g.process(new GrayU8(4,4),new GrayS32(4,4)); break; case 1: g.setMinContour(1); break; case 2: g.getMinContour(); break; case 3: g.setMaxContour(1); break; case 4: g.getMaxContour(); break; case 5: g.setConnectRule(ConnectRule.FOUR); break; case 6: g.getConnectRule(); break; default: g.isSaveInternalContours(); } fail("used-after-destroy:chang","call "+k+" on a destroyed object raised nothing"); } catch(RuntimeException e) { ev("used.after.destroy.refused"); } if(r.chance(.5)) g.native_destroy(); }
        write(bo); }

    // ------------------------------------------------------------------ what is not supported is refused
    @SuppressWarnings("unchecked") static void unsupported(R r) throws IOException { int w=r.range(1,12),h=r.range(1,12); int op=r.range(0,12); Img out; String what; boolean raised=false; Img in;
        if(op<6) { TP p=tparam(r,op); p.type=r.pick(2,3,4,5,6,7); what="threshold"+op+" of type "+p.type; phase(what); in=image(r,p.type,w,h,0,100); out=image(r,0,w,h,0,100); InputToBinary f=null; try { f=filter(p); f.process(in.im,(GrayU8)out.im); } catch(RuntimeException e) { raised=true; } if(f!=null) destroy(f); }
        else { int kind=op-6; boolean conv=kind>=2&&kind<=4; int it=r.pick(0,1),ot=it==1?1:conv?r.pick(2,3):0; int b=r.pick(1,3,4,5), kw=r.range(1,5), ko=kw/2; KernelBase k=kernel(r,kind,it==1,kw,ko,null); int m=r.range(0,conv?5:2); ImageBorder bd=border(r,b,it==1); in=null; ImageBase inb=null;
            if(m==0) { it=r.pick(2,3,4,5,6,7); ot=it==6?6:conv?3:it; what="image type "+it; k=kernel(r,kind,it==6,kw,ko,null); }
            else if(m==1) { what="planar image"; inb=new Planar(it==1?GrayF32.class:GrayU8.class,w,h); }
            else if(m==2) { if(kind<2) { what="storage of the wrong type"; it=ot=0; } else { what="kernel type"; k=kernel(r,kind,it!=1,kw,ko,null); } }
            else if(m==3) { what="output type"; ot= it==1?r.pick(6,3):r.pick(0,5,1); }
            else if(m==4) { what="border value"; bd= it==1?new ImageBorderValue.Value_F32((float)r.pickd(.25,-.5,1,200)):new ImageBorderValue.Value_I(r.pick(1,-1,200)); }
            else { what="mixed border"; BorderIndex1D[] x={new BorderIndex1D_Extend(),new BorderIndex1D_Reflect(),new BorderIndex1D_Wrap(),new BorderIndex1D_Exception()}; int a=r.range(0,3),c=r.range(0,3); if(a==c) { a=3; } bd= it==1?new ImageBorder1D_F32(x[a],x[c]):new ImageBorder1D_S32(x[a],x[c]); }
            what=SN[kind]+" "+what; phase(what); if(inb==null) { in=image(r,it,w,h,0,100); inb=in.im; } out=image(r,ot,w,h,0,100); ImageBase st=null; if(m==2&&kind<2) st=make(2,w,h); else if(kind<2&&r.chance(.5)&&in!=null) st=make(it,w,h);
            try { call(kind,k,inb,out.im,r.range(1,3),1.0,st,bd); } catch(RuntimeException e) { raised=true; } }
        if(!raised) fail("unsupported-accepted:"+what,what+" was processed without an exception"); if(in!=null&&!in.same()||!out.same()) fail("unsupported-wrote:"+what,"a refused call changed an image"); ev("unsupported.refused"); }

    // ------------------------------------------------------------------ native memory of garbage
    static native long liveNative();
    static void collect() { System.gc(); System.runFinalization(); }
    /** objects which are used and forgotten, or destroyed, leave no native memory behind */
    static void forgotten(R r) throws Exception { final int kind=r.range(0,7), n=48; final double destroyed=r.pickd(0,0,.5,1); String what= kind<6?"threshold"+kind:kind==6?"chang":"stateless"; phase("forgotten objects: "+what); for(int i=0;i<3;i++) collect();
        long before=liveNative(); final long s=r.r.nextLong(); final java.lang.ref.ReferenceQueue<Object> queue=new java.lang.ref.ReferenceQueue<>(); final List<java.lang.ref.Reference<Object>> refs=new ArrayList<>(); final Throwable[] err=new Throwable[1]; final long[] peak=new long[1];
        Thread t=new Thread(()->{ try { R q=new R(s); for(int i=0;i<n;i++) { Object o=null; int uses=q.range(0,3); if(kind<6) { TP p=tparam(q,kind); InputToBinary f=filter(p); o=f; for(int k=0;k<uses;k++) { int[] z=shape(q,20); Img in= p.type==0?image(q,0,z[0],z[1],0,255):image(q,1,z[0],z[1],-20,270); try { f.process(in.im,new GrayU8(z[0],z[1])); } catch(RuntimeException e) { ev("exception"); } } if(q.chance(destroyed)) { destroy(f); if(q.chance(.3)) destroy(f); } }
            else if(kind==6) { BinaryLabelContourFinder f=BOverrideFactoryBinaryContourFinder.chang2004.createChang2004(); o=f; for(int k=0;k<uses;k++) { int[] z=shape(q,20); Img in=image(q,0,z[0],z[1],0,1); f.process((GrayU8)in.im,new GrayS32(z[0],z[1])); } if(f instanceof org.boofcpp.contour.NativeChang2004&&q.chance(destroyed)) ((org.boofcpp.contour.NativeChang2004)f).native_destroy(); }
            else stateless(q,q.range(0,6),false); if(o!=null) refs.add(new java.lang.ref.PhantomReference<Object>(o,queue)); } peak[0]=liveNative(); } catch(Throwable e) { err[0]=e; } }); t.start(); t.join(); t=null; if(err[0]!=null) throw new Exception("forgotten: "+err[0],err[0]);
        int gone=0; long end=System.nanoTime()+40000000000L; while(gone<refs.size()&&System.nanoTime()<end) { collect(); while(queue.poll()!=null) gone++; if(gone<refs.size()) Thread.sleep(5); } if(gone<refs.size()) { ev("forgotten.not.collected"); return; }
        end=System.nanoTime()+15000000000L; while(liveNative()>before+n/8&&System.nanoTime()<end) { collect(); Thread.sleep(50); }
        long left=liveNative()-before; if(left>n/8) fail("native-leak:"+what,n+" objects or calls of "+what+" left "+left+" native allocations behind after the Java objects had been collected"); if(peak[0]>before+n) ev("forgotten.objects.held.memory"); ev("forgotten."+what); }

    static void one(R r,int k,boolean gc) throws IOException { if(k<6) threshold(r,k,gc); else if(k<13) stateless(r,k-6,gc); else if(k<15) contours(r,gc); else unsupported(r); }
    static volatile Object garbage;
    static void threads(long seed,R r) throws Exception { int n=r.range(2,5); Thread[] t=new Thread[n]; Throwable[] err=new Throwable[n]; java.util.concurrent.CyclicBarrier bar=new java.util.concurrent.CyclicBarrier(n); boolean gc=r.chance(.3);
        for(int i=0;i<n;i++) { final int id=i; final R q=new R(seed*31+i+1); t[i]=new Thread(()->{ try { bar.await(); for(int k=0;k<12;k++) { one(q,q.range(0,15),false); if(gc&&id==0) { garbage=new byte[1<<16]; if(k%4==0) System.gc(); } } } catch(Throwable e) { err[id]=e; } }); t[i].start(); }
        for(int i=0;i<n;i++) { t[i].join(); if(err[i]!=null) throw new Exception("in thread "+i+": "+err[i],err[i]); } ev("threads"); }

    public static void main(String[] a) throws Exception { long seed=Long.parseLong(a[0]),first=Long.parseLong(a[1]),last=Long.parseLong(a[2]),step=Long.parseLong(a[3]); report=new PrintStream(new FileOutputStream(a[4]+".report")); log=new DataOutputStream(new BufferedOutputStream(new FileOutputStream(a[4])));
        try(RandomAccessFile f=new RandomAccessFile(a[5],"rw")) { f.setLength(256); status=f.getChannel().map(java.nio.channels.FileChannel.MapMode.READ_WRITE,0,256); } status.order(ByteOrder.LITTLE_ENDIAN);
        org.boofcpp.BoofCPP.loadlib(); org.boofcpp.BoofCPP.initialize(); long n=0;
        for(long c=first;c<last;c+=step) { current=c; status.putLong(0,c); long s=(seed*0x9E3779B97F4A7C15L)^(c*0xD1342543DE82EF95L); R r=new R(s); try { if(r.chance(.03)) { phase("threads"); threads(s,r); } else if(r.chance(.01)) forgotten(r); else one(r,r.range(0,16),r.chance(.02)); } catch(Throwable e) { StringWriter sw=new StringWriter(); e.printStackTrace(new PrintWriter(sw)); String tr=sw.toString(); fail("raised:"+e.getClass().getSimpleName(),tr.substring(0,Math.min(tr.length(),900))); } n++; if(violations>20) break; if(n%500==0) { garbage=new byte[1<<20]; } }
        log.writeByte('E'); log.flush(); StringBuilder sb=new StringBuilder(); for(Map.Entry<String,Long> e:counters.entrySet()) sb.append(sb.length()>0?",":"").append('"').append(e.getKey()).append("\":").append(e.getValue()); report.println("N\t"+n+"\t{"+sb+"}"); report.println("E"); report.flush(); System.gc(); System.runFinalization(); }
}
