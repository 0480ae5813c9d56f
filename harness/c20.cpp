// C20: whatever happens inside a native method, arrays are released once, JNI rules are kept, failures become Java
// exceptions and no native memory is left behind. Failing operations, failing allocations and failing JNI calls are injected.
#include "jniops.hpp"
using namespace mj;
namespace vh {
void setup_run() { large().p=0.002; static char b[4096]; setvbuf(stdout,b,_IOLBF,sizeof b); define(); }
struct Fault { i64 nf=-1, jf=-1; const char* name="none"; };
static i64 live() { return track_available()? track_stats().live_blocks : 0; }
static void no_leak(Ctx& c, i64 base, const std::string& what, const Fault& f) { i64 now=live(); if(now!=base) c.fail("native-leak:"+what,"%s (fault %s): %lld blocks of native memory are still allocated",what.c_str(),f.name,(long long)(now-base)); c.ev("leak.checks"); }
static Fault fault(Ctx& c, double p=.6) { Fault f; Rng& r=c.r; if(!r.chance(p)) return f; if(r.chance(.6)) { f.nf=r.range(0,r.chance(.7)?5:40); f.name="allocation"; } else { f.jf=r.range(0,r.chance(.7)?4:40); f.name="jni call"; } return f; }
static bool fired(const Fault& f) { return (f.nf>=0&&(i64)nf_count>f.nf)||vm().failed; }
static void clear_pending() { vm().pending=nullptr; vm().failed=false; }
// what must hold after every call. `good`: the C++ operation succeeds on the same data
static void judge(Ctx& c, bool ok, bool good, const Fault& f, const std::string& what) { bool fi=fired(f); if(fi) { c.ev(f.nf>=0?"fault.allocation":"fault.jni"); }
    if(ok&&!good) c.fail("failure-not-reported:"+what,"%s: the C++ operation fails, but no Java exception was raised",what.c_str());
    if(!ok&&good&&!fi) c.fail("spurious-exception:"+what,"%s raised %s (%s) though nothing failed",what.c_str(),vm().pending->name.c_str(),vm().message.c_str());
    if(!ok) { c.ev("java.exceptions"); if(!good) c.ev("failing.operation"); c.state(hbytes(vm().pending->name.data(),vm().pending->name.size(),hbytes(what.data(),what.size()))); } }
template<class T> static void pixels_are(Ctx& c, const JImage& out, const Mat<T>& want, const std::string& what) { Mat<T> got=out.read<T>(); for(size_t i=0;i<got.d.size();i++) if(memcmp(&got.d[i],&want.d[i],sizeof(T))) c.fail("wrong-result:"+what,"%s returned normally with wrong pixels (pixel %zu)",what.c_str(),i); }
static void inputs_same(Ctx& c, const JImage& in, const std::string& what) { if(!in.same()||!in.fields_same()) c.fail("input-modified:"+what,"%s changed its input image",what.c_str()); }

template<class T> static void threshold(Ctx& c, int kind) { Rng& r=c.r; std::string what=tname(kind); TParam p=tparam(r,kind,r.chance(.25)); p.integer=!IsF<T>::v; if(!p.integer&&kind==OTSU) { p.a=-20; p.b=270; } else if(kind==OTSU) { p.a=0; p.b=255; } c.note("%s",p.str().c_str()); if(p.integer&&kind==FIXED) p.a=(double)(int)std::min(255.0,std::max(0.0,p.a)); if(p.integer&&kind==BMEAN&&p.scale>1) p.scale=1;
    std::unique_ptr<InputToBinary<Gray<T>>> ref(direct<T>(p)); i64 base=live(); Obj* self=towner(p); bool alive=false; Fault none; int steps=(int)r.range(2,8); if(r.chance(.004)) { steps=(int)r.range(40,120); c.ev("long.histories"); }
    for(int s=0;s<steps;s++) {
        if(!alive) { int m=(int)r.range(0,9);
            if(m<7) { Fault f=fault(c,.3); set_phase(p.str()+" init fault "+f.name); bool ok=tinit(c,self,p,f.nf,f.jf); judge(c,ok,true,f,what+".nativeinit"); clear_pending(); alive=ok;
                if(ok&&self->i["nativePtr"]==0) c.fail("no-object:"+what,"nativeinit returned normally without a native object"); if(!ok&&self->i["nativePtr"]!=0) c.fail("dangling-object:"+what,"a failed nativeinit left a native pointer"); if(!ok) no_leak(c,base,what+".nativeinit",f); if(ok) c.ev("objects.created"); }
            else if(m<9) { set_phase(p.str()+" destroy without an object"); tdestroy(c,kind,self); clear_pending(); no_leak(c,base,what+".nativedestroy",none); c.ev("destroyed.without.object"); }
            else { set_phase(p.str()+" process without an object"); Mat<T> m=pixels<T>(r,5,5); JImage in=jimage<T>(r,5,5,&m), out=jimage<uint8_t>(r,5,5); bool ok=tprocess(c,kind,self,in.o,out.o); if(ok) c.fail("used-after-destroy:"+what,"nativeprocess without a native object returned normally"); clear_pending(); c.ev("used.without.object"); }
        } else { int m=(int)r.range(0,9);
            if(m<7) { uint32_t w,h; rand_size(r,w,h,24); Mat<T> m=pixels<T>(r,w,h); c.hash(m.hash()); JImage in=jimage<T>(r,w,h,&m); bool shape=r.chance(.1); uint32_t ow=w,oh=h; if(shape) { ow=w+(uint32_t)r.range(0,2); oh=h+(ow==w); } JImage out=jimage<uint8_t>(r,ow,oh); bool nodata=r.chance(.05); if(nodata) { (r.chance(.5)?in:out).o->o["data"]=nullptr; c.ev("null.data"); }
                bool good=true; std::unique_ptr<Gray<T>> g(owned(m)); Gray<U8> o(ow,oh); { Untrack u; try { ref->process(*g,o); } catch(const std::exception&) { good=false; } } if(nodata) good=false; if(shape) { good=false; c.ev("shape.mismatch"); }
                Fault f=fault(c); set_phase(p.str()+strf(" process %ux%u fault %s %lld/%lld",w,h,f.name,(long long)f.nf,(long long)f.jf)); bool ok=tprocess(c,kind,self,in.o,out.o,f.nf,f.jf); judge(c,ok,good,f,what+".nativeprocess"); clear_pending(); if(!nodata) inputs_same(c,in,what); if(!nodata&&(!out.outside_same()||!out.fields_same())) c.fail("wrote-outside:"+what,"%s wrote outside its output image",what.c_str()); if(ok) pixels_are(c,out,content(o),what); c.ev("process.calls"); if(!ok) c.ev("object.survives.failure"); }
            else { set_phase(p.str()+" destroy"); if(!tdestroy(c,kind,self)) c.fail("destroy-raises:"+what,"nativedestroy raised an exception"); alive=false; if(self->i["nativePtr"]!=0) c.fail("dangling-object:"+what,"nativedestroy left the pointer to the destroyed object"); no_leak(c,base,what+".nativedestroy",none); c.ev("objects.destroyed"); } } }
    if(alive) { tdestroy(c,kind,self); no_leak(c,base,what+".nativedestroy",none); c.ev("objects.destroyed"); } }

template<class I,class O> struct Fam { static const int v=3; }; template<> struct Fam<U8,U8> { static const int v=2; }; template<> struct Fam<F32,F32> { static const int v=1; };
template<class I,class K,class O> struct Go { static void go(const SParam& p, const std::vector<K>& kd, const Gray<I>& g, Gray<O>& o) { conv(p,kd,g,o); } };
template<> struct Go<U8,S32,U8> { static void go(const SParam& p, const std::vector<S32>& kd, const Gray<U8>& g, Gray<U8>& o) { blur_or_norm<U8,S32>(p,kd,g,o); } };
template<> struct Go<F32,F32,F32> { static void go(const SParam& p, const std::vector<F32>& kd, const Gray<F32>& g, Gray<F32>& o) { if(p.kind>=CONV_H&&p.kind<=CONV_2D) conv(p,kd,g,o); else blur_or_norm<F32,F32>(p,kd,g,o); } };
template<class I,class K,class O> static void stateless(Ctx& c, SParam p) { Rng& r=c.r; std::string what=sname(p.kind); uint32_t w,h; rand_size(r,w,h,24); Mat<I> m=pixels<I>(r,w,h); c.hash(m.hash());
    std::vector<K> kd=kdata<K>(r,p); bool bad=false; int off=p.offset; std::string why="fine";
    if(r.chance(.3)) { int k=(int)r.range(0,5); if(k==0) { if(p.kind==MEAN) { p.radius=0; bad=true; why="radius"; } else if(p.kind==GAUSS) { p.radius=0; p.sigma=-1; bad=true; why="sigma"; } else { off=p.width+(int)r.range(0,3); if(r.chance(.3)) off=-1-(int)r.range(0,3); bad=true; why="kernel offset"; } }
        else if(k==1&&p.kind>=CONV_H&&p.kind<=CONV_2D) { p.border=r.pick({-1,0,2,6,77}); bad=true; why="border"; }
        else if(k==5) { if(p.kind>=CONV_H) { bad=true; why="kernel array"; } } else if(k==2) why="output shape"; else if(k==3) why="null data"; else if(p.kind<=GAUSS) why="storage shape"; }
    uint32_t ow=w,oh=h; if(why=="output shape") { ow=w+(uint32_t)r.range(0,2); oh=h+(ow==w); } uint32_t sw=w,sh_=h; if(why=="storage shape") { sw=w+(uint32_t)r.range(0,2); sh_=h+(sw==w); }
    JImage in=jimage<I>(r,w,h,&m), out=jimage<O>(r,ow,oh), st=jimage<I>(r,sw,sh_); bool nodata=why=="null data"; if(nodata) { (r.chance(.5)?in:out).o->o["data"]=nullptr; bad=true; }
    if(why!="fine") c.ev(("bad."+why).c_str());
    std::vector<K> arr=kd; if(why=="kernel array") arr.resize((size_t)r.range(0,(i64)kd.size()-1)); else if(r.chance(.1)) arr.resize(kd.size()+(size_t)r.range(1,12),(K)7); Obj* ker=jkernel<K>(p.kind==CONV_2D?2:1,arr,p.width,off); Obj* self=jowner(sclass(p.kind),!IsF<I>::v,(int)sizeof(I)*8,(int)sizeof(O)*8); std::unique_ptr<Gray<I>> g(owned(m)); Gray<O> o(w,h); bool shape=why=="output shape"||why=="storage shape"; if(!bad&&!shape) Go<I,K,O>::go(p,kd,*g,o);
    Fault f=fault(c); set_phase(p.str()+strf(" %s->%s image %ux%u (%s) fault %s %lld/%lld",TName<I>::n(),TName<O>::n(),w,h,why.c_str(),f.name,(long long)f.nf,(long long)f.jf)); i64 base=live();
    bool ok=scall(c,p,self,in.o,out.o,st.o,ker,f.nf,f.jf);
    // a storage image of another shape may or may not be usable; an output of another shape is never
    if(why=="storage shape") { if(fired(f)) c.ev("fault.storage"); } else judge(c,ok,!bad&&!shape,f,what); clear_pending(); no_leak(c,base,what,f);
    if(!nodata) { inputs_same(c,in,what); if(!out.outside_same()||!out.fields_same()||!st.outside_same()) c.fail("wrote-outside:"+what,"%s wrote outside its output or storage image",what.c_str()); }
    if(ok&&!bad&&why!="storage shape") pixels_are(c,out,content(o),what); c.ev(sname(p.kind)); }

static void chang(Ctx& c) { Rng& r=c.r; Obj* self=jchang(); jobject s=H(self); i64 base=live(); Fault none; bool alive=false; std::unique_ptr<LinearContourLabelChang2004> ref; int steps=(int)r.range(2,9); if(r.chance(.004)) { steps=(int)r.range(40,120); c.ev("long.histories"); }
    auto destroy=[&]{ set_phase("contours: native_destroy"); if(!ccall(c,"NativeChang2004.native_destroy",[&](JNIEnv* e){ Java_org_boofcpp_contour_NativeChang2004_native_1destroy(e,s); })) c.fail("destroy-raises:chang","native_destroy raised an exception"); if(self->i["nativePtr"]!=0) c.fail("dangling-object:chang","native_destroy left its pointer"); no_leak(c,base,"NativeChang2004.native_destroy",none); };
    for(int k=0;k<steps;k++) { int op=(int)r.range(0,9);
        if(!alive&&op<6) { Fault f=fault(c,.3); set_phase("contours: native_init"); bool ok=ccall(c,"NativeChang2004.native_init",[&](JNIEnv* e){ Java_org_boofcpp_contour_NativeChang2004_native_1init(e,s); },f.nf,f.jf); judge(c,ok,true,f,"NativeChang2004.native_init"); clear_pending(); alive=ok; if(ok!=(self->i["nativePtr"]!=0)) c.fail("dangling-object:chang","native_init %s but the pointer is %s",ok?"succeeded":"failed",ok?"null":"set"); if(!ok) no_leak(c,base,"NativeChang2004.native_init",f); else { ref.reset(new LinearContourLabelChang2004(ConnectRule::FOUR)); ref->maxContourSize=0x7fffffff; c.ev("objects.created"); } }
        else if(op==9) { destroy(); if(!alive) c.ev("destroyed.without.object"); else c.ev("objects.destroyed"); alive=false; }
        else if(op==8) { int which=(int)r.range(0,7); bool eight=r.chance(.5), bv=r.chance(.5); int v=(int)r.range(0,50); set_phase("contours: setting"); jobject jr=H(vm().cls("boofcv/struct/ConnectRule")->statics[eight?"EIGHT":"FOUR"]); Fault f=fault(c,.3); if(!alive) f=none; bool refnull=false;
            bool ok=ccall(c,"NativeChang2004.settings",[&](JNIEnv* e){ switch(which) { case 0: Java_org_boofcpp_contour_NativeChang2004_setConnectRule(e,s,jr); break; case 1: Java_org_boofcpp_contour_NativeChang2004_setMinContour(e,s,v); break; case 2: Java_org_boofcpp_contour_NativeChang2004_setMaxContour(e,s,v); break; case 3: Java_org_boofcpp_contour_NativeChang2004_setSaveInnerContour(e,s,bv); break;
                case 4: Java_org_boofcpp_contour_NativeChang2004_getMinContour(e,s); break; case 5: Java_org_boofcpp_contour_NativeChang2004_getMaxContour(e,s); break; case 6: Java_org_boofcpp_contour_NativeChang2004_isSaveInternalContours(e,s); break; default: refnull=Java_org_boofcpp_contour_NativeChang2004_getConnectRule(e,s)==nullptr; } },f.nf,f.jf);
            judge(c,ok,alive,f,"NativeChang2004.settings"); if(ok&&refnull) c.fail("wrong-result:chang","getConnectRule returned null without an exception"); clear_pending(); if(ok) switch(which) { case 0: ref->setConnectRule(eight?ConnectRule::EIGHT:ConnectRule::FOUR); break; case 1: ref->minContourSize=v; break; case 2: ref->maxContourSize=v; break; case 3: ref->saveInternalContours=bv; break; } c.ev("settings"); }
        else { uint32_t w,h; rand_size(r,w,h,30); if(r.chance(.05)) { w=(uint32_t)r.range(70,130); h=(uint32_t)r.range(70,130); } Mat<U8> m(w,h); double d=r.pick({.2,.5,.8}); for(auto& v:m.d) v=r.chance(d); c.hash(m.hash()); uint32_t ow=w,oh=h; bool shape=r.chance(.1); if(shape) { ow=w+(uint32_t)r.range(0,2); oh=h+(ow==w); c.ev("shape.mismatch"); } bool nodata=r.chance(.05), qnull=r.chance(.03);
            JImage in=jimage<U8>(r,w,h,&m), out=jimage<S32>(r,ow,oh); if(nodata) { (r.chance(.5)?in:out).o->o["data"]=nullptr; c.ev("null.data"); } Obj* qd=self->o["storagePoints"]->o["data"]; if(qnull) { self->o["storagePoints"]->o["data"]=nullptr; } i64 bl=self->o["packedPoints"]->i["blockLength"]; bool blbad=r.chance(.03); if(blbad) self->o["packedPoints"]->i["blockLength"]=bl/2;
            Mat<S32> want(w,h); if(alive&&!shape) { Untrack u; std::unique_ptr<Gray<U8>> g(owned(m)); Gray<S32> lab(w,h); ref->process(*g,lab); want=content(lab); } jreset(self);
            Fault f=fault(c); set_phase(strf("contours of %ux%u fault %s %lld/%lld",w,h,f.name,(long long)f.nf,(long long)f.jf)); size_t lr=vm().live_refs; bool ok=ccall(c,"NativeChang2004.native_process",[&](JNIEnv* e){ jobject i=H(in.o),o=H(out.o); Java_org_boofcpp_contour_NativeChang2004_native_1process(e,s,i,o); },f.nf,f.jf);
            if(vm().max_refs>lr+120) c.fail("local-references:chang","%zu local references were alive at once",vm().max_refs); judge(c,ok,alive&&!shape&&!nodata&&!qnull&&!blbad,f,"NativeChang2004.native_process"); clear_pending(); self->o["packedPoints"]->i["blockLength"]=bl; self->o["storagePoints"]->o["data"]=qnull?qd:self->o["storagePoints"]->o["data"];
            if(!nodata) { inputs_same(c,in,"NativeChang2004.native_process"); if(!out.outside_same()||!out.fields_same()) c.fail("wrote-outside:chang","native_process wrote outside its label image"); } if(ok) { pixels_are(c,out,want,"NativeChang2004.native_process"); if(vm().contours.size()!=ref->contours.size()||self->o["packedPoints"]->o["sets"]->i["size"]!=(i64)ref->packedPoints.set_info.size()) c.fail("wrong-result:chang","%zu blobs reached Java instead of %zu",vm().contours.size(),ref->contours.size()); c.ev("contours.received",vm().contours.size()); } c.ev("chang.process"); } }
    if(alive) { destroy(); c.ev("objects.destroyed"); } }

void run_case(Ctx& c) { Rng& r=c.r; vm().reset(); vm().copy_mode=r.chance(.5); c.ev(vm().copy_mode?"arrays.copied":"arrays.pinned"); c.nontrivial(); u64 g0=vm().gets,r0=vm().releases; int k=(int)r.range(0,15);
    if(k<6) { if(r.chance(.5)) threshold<U8>(c,k); else threshold<F32>(c,k); c.ev(tname(k)); }
    else if(k<13) { SParam p=sparam(r,k-6); c.note("%s",p.str().c_str()); bool cv=p.kind>=CONV_H&&p.kind<=CONV_2D; if(r.chance(.4)) stateless<F32,F32,F32>(c,p); else if(!cv) stateless<U8,S32,U8>(c,p); else if(r.chance(.5)) stateless<U8,S32,S16>(c,p); else stateless<U8,S32,S32>(c,p); }
    else { c.note("contours"); chang(c); }
    if(vm().gets-g0!=vm().releases-r0) c.fail("array-balance","%llu arrays were obtained and %llu released",(unsigned long long)(vm().gets-g0),(unsigned long long)(vm().releases-r0));
    c.ev("arrays.obtained.and.released",vm().gets-g0); c.ev("native.calls.observed",vm().calls); vm().calls=0; c.hash(vm().gets); }
} // namespace vh
