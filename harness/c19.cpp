// C19: native methods called from (simulated) Java give the pixels of the C++ operation and touch nothing else.
#include "jniops.hpp"
using namespace mj;
namespace vh {
// input, output and workspace, when of one type sometimes all in one Java array
template<class I,class O,class W> struct Places { static bool tiles(Rng&, uint32_t, uint32_t, const Mat<I>&, JImage&, JImage&, JImage*) { return false; } };
template<class T> struct Places<T,T,T> { static bool tiles(Rng& r, uint32_t w, uint32_t h, const Mat<T>& m, JImage& in, JImage& out, JImage* st) { auto t=jtiles<T>(r,w,h,m,st&&r.chance(.5)?3:2); in=t[0]; out=t[1]; if(st) *st=t.size()>2?t[2]:jimage<T>(r,w,h); return true; } };
template<class I,class O,class W> void places(Ctx& c, uint32_t w, uint32_t h, const Mat<I>& m, JImage& in, JImage& out, JImage* st) { Rng& r=c.r; if(r.chance(.15)&&w&&h&&Places<I,O,W>::tiles(r,w,h,m,in,out,st)) { c.ev("images.in.one.array"); return; } in=jimage<I>(r,w,h,&m); out=jimage<O>(r,w,h); if(st) *st=jimage<W>(r,w,h); }
void setup_run() { large().p=0.005; define(); }
static void inputs_same(Ctx& c, const JImage& in, const char* what) { if(!in.same()||!in.fields_same()) c.fail(std::string("input-modified:")+what,"%s changed its input image",what); }
template<class T> static void result(Ctx& c, const JImage& out, const Mat<T>& want, const char* what) {
    if(!out.fields_same()) c.fail(std::string("output-fields:")+what,"%s changed the fields of its output image",what);
    if(!out.outside_same()) c.fail(std::string("wrote-outside:")+what,"%s changed elements of the output array outside the image",what);
    Mat<T> got=out.read<T>(); for(uint32_t y=0;y<got.h;y++) for(uint32_t x=0;x<got.w;x++) if(memcmp(&got(x,y),&want(x,y),sizeof(T))) c.fail(std::string("pixels:")+what,"%s: pixel (%u,%u) of %ux%u is %s, the C++ operation gives %s",what,x,y,got.w,got.h,sv(got(x,y)).c_str(),sv(want(x,y)).c_str()); }

template<class T> static void threshold(Ctx& c, TParam p) { Rng& r=c.r; std::string what=tname(p.kind);
    Obj* self=towner(p); if(!tinit(c,self,p)) c.fail("init:"+what,"nativeinit failed: %s",vm().message.c_str());
    std::unique_ptr<InputToBinary<Gray<T>>> ref(direct<T>(p));
    int n=(int)r.range(1,3); if(r.chance(.003)) { n=(int)r.range(20,60); c.ev("long.histories"); } for(int k=0;k<n;k++) { uint32_t w,h; rand_size(r,w,h,30); set_phase(p.str()+strf(" image %ux%u",w,h)); Mat<T> m=pixels<T>(r,w,h); c.hash(m.hash());
        JImage in,out; places<T,uint8_t,uint8_t>(c,w,h,m,in,out,nullptr); std::unique_ptr<Gray<T>> g(owned(m)); Gray<U8> o(w,h); bool threw=false; try { ref->process(*g,o); } catch(const std::exception&) { threw=true; }
        bool ok=tprocess(c,p.kind,self,in.o,out.o); inputs_same(c,in,what.c_str());
        if(ok==threw) c.fail("outcome:"+what,"C++ %s, the native method %s (%s)",threw?"throws":"succeeds",ok?"succeeds":"raises",vm().message.c_str());
        if(ok) { result<uint8_t>(c,out,content(o),what.c_str()); c.ev("threshold.images"); } else { vm().pending=nullptr; c.ev("both.rejected"); if(!out.outside_same()) c.fail("wrote-outside:"+what,"a rejected call changed the output's surroundings"); } }
    if(!tdestroy(c,p.kind,self)) c.fail("destroy:"+what,"nativedestroy raised %s",vm().message.c_str()); }

// convolutions exist for <U8,S16> <U8,S32> <F32,F32>; blurs and normalised convolutions for <U8,U8> <F32,F32>
template<class I,class K,class O> struct Go { static void go(const SParam& p, const std::vector<K>& kd, const Gray<I>& g, Gray<O>& o) { conv(p,kd,g,o); } };
template<> struct Go<U8,S32,U8> { static void go(const SParam& p, const std::vector<S32>& kd, const Gray<U8>& g, Gray<U8>& o) { blur_or_norm<U8,S32>(p,kd,g,o); } };
template<> struct Go<F32,F32,F32> { static void go(const SParam& p, const std::vector<F32>& kd, const Gray<F32>& g, Gray<F32>& o) { if(p.kind>=CONV_H&&p.kind<=CONV_2D) conv(p,kd,g,o); else blur_or_norm<F32,F32>(p,kd,g,o); } };
template<class I,class K,class O> static void stateless(Ctx& c, const SParam& p) { Rng& r=c.r; std::string what=sname(p.kind); uint32_t w,h; rand_size(r,w,h,24); Mat<I> m=pixels<I>(r,w,h); c.hash(m.hash()); set_phase(p.str()+strf(" %s->%s image %ux%u",TName<I>::n(),TName<O>::n(),w,h));
    std::vector<K> kd=kdata<K>(r,p); JImage in,out,st; places<I,O,I>(c,w,h,m,in,out,&st); std::vector<K> whole=kd; if(r.chance(.2)) { int extra=(int)r.range(1,12); for(int k=0;k<extra;k++) whole.push_back((K)r.range(-40,40)); c.ev("kernel.array.longer"); } // elements which are not of the kernel
    Obj* ker=jkernel<K>(p.kind==CONV_2D?2:1,whole,p.width,p.offset); std::vector<unsigned char> ks(ker->o["data"]->data,ker->o["data"]->data+kd.size()*sizeof(K));
    Obj* self=jowner(sclass(p.kind),!IsF<I>::v,(int)sizeof(I)*8,(int)sizeof(O)*8); std::unique_ptr<Gray<I>> g(owned(m)); Gray<O> o(w,h);
    Go<I,K,O>::go(p,kd,*g,o);
    bool ok=scall(c,p,self,in.o,out.o,st.o,ker); if(!ok) c.fail("outcome:"+what,"%s raised %s",what.c_str(),vm().message.c_str());
    inputs_same(c,in,what.c_str()); if((!st.shared&&!st.outside_same())||!st.fields_same()) c.fail("wrote-outside:"+what,"storage changed outside its image"); if(memcmp(ks.data(),ker->o["data"]->data,ks.size())||ker->i["width"]!=p.width||ker->i["offset"]!=p.offset) c.fail("kernel-modified:"+what,"the kernel changed");
    if(st.shared) { size_t es=sizeof(I); for(uint32_t y=0;y<h;y++) { size_t a=(st.off+(size_t)y*st.stride)*es; memcpy(&out.snap[a],st.arr->data+a,w*es); } } result<O>(c,out,content(o),what.c_str()); c.ev(sname(p.kind)); if(p.kind>=CONV_H&&p.kind<=CONV_2D) c.ev(strf("border.%d",p.border).c_str()); }


static void chang(Ctx& c) { Rng& r=c.r; Obj* self=jchang(); jobject s=H(self); using namespace std;
#define CN(n) Java_org_boofcpp_contour_NativeChang2004_##n
    if(!ccall(c,"NativeChang2004.native_init",[&](JNIEnv* e){ CN(native_1init)(e,s); })) c.fail("init:chang","native_init failed");
    unique_ptr<LinearContourLabelChang2004> ref(new LinearContourLabelChang2004(ConnectRule::FOUR)); ref->maxContourSize=0x7fffffff;
    int n=(int)r.range(1,3); if(r.chance(.003)) { n=(int)r.range(20,60); c.ev("long.histories"); } for(int k=0;k<n;k++) {
        if(r.chance(.6)) { bool eight=r.chance(.5); jobject jr=H(vm().cls("boofcv/struct/ConnectRule")->statics[eight?"EIGHT":"FOUR"]); ccall(c,"NativeChang2004.setConnectRule",[&](JNIEnv* e){ CN(setConnectRule)(e,s,jr); }); ref->setConnectRule(eight?ConnectRule::EIGHT:ConnectRule::FOUR); }
        if(r.chance(.3)) { int v=(int)r.range(0,20); ccall(c,"NativeChang2004.setMinContour",[&](JNIEnv* e){ CN(setMinContour)(e,s,v); }); ref->minContourSize=v; }
        if(r.chance(.3)) { int v=(int)r.range(1,60); if(r.chance(.3)) v=0x7fffffff; ccall(c,"NativeChang2004.setMaxContour",[&](JNIEnv* e){ CN(setMaxContour)(e,s,v); }); ref->maxContourSize=v; }
        if(r.chance(.3)) { bool v=r.chance(.5); ccall(c,"NativeChang2004.setSaveInnerContour",[&](JNIEnv* e){ CN(setSaveInnerContour)(e,s,v); }); ref->saveInternalContours=v; }
        i64 mn=-1,mx=-1,sv_=-1; Obj* ru=nullptr;
        ccall(c,"NativeChang2004.getters",[&](JNIEnv* e){ mn=CN(getMinContour)(e,s); mx=CN(getMaxContour)(e,s); sv_=CN(isSaveInternalContours)(e,s); jobject q=CN(getConnectRule)(e,s); ru=q?((Ref*)q)->obj:nullptr; });
        if(mn!=(i64)ref->minContourSize||mx!=(i64)ref->maxContourSize||(sv_!=0)!=ref->saveInternalContours||!ru||ru->i["ordinal"]!=(ref->getConnectRule()==ConnectRule::EIGHT?1:0)) c.fail("settings:chang","settings read back are min %lld max %lld inner %lld rule %lld",(long long)mn,(long long)mx,(long long)sv_,(long long)(ru?ru->i["ordinal"]:-1));
        uint32_t w,h; rand_size(r,w,h,40); if(r.chance(.03)) { w=(uint32_t)r.range(80,160); h=(uint32_t)r.range(80,160); c.ev("chang.large"); } Mat<U8> m(w,h); double d=r.pick({.2,.5,.5,.7,.9}); for(auto& v:m.d) v=r.chance(d); c.hash(m.hash()); set_phase(strf("contours of %ux%u",w,h));
        JImage in=jimage<U8>(r,w,h,&m), out=jimage<S32>(r,w,h); unique_ptr<Gray<U8>> g(owned(m)); Gray<S32> lab(w,h); ref->process(*g,lab); jreset(self);
        size_t base=vm().live_refs; bool ok=ccall(c,"NativeChang2004.native_process",[&](JNIEnv* e){ jobject i=H(in.o),o=H(out.o); CN(native_1process)(e,s,i,o); }); if(!ok) c.fail("outcome:chang","native_process raised %s",vm().message.c_str());
        if(vm().max_refs>base+120) c.fail("local-references:chang","%zu local references were alive at once for %zu contours",vm().max_refs,ref->contours.size());
        inputs_same(c,in,"native_process"); result<S32>(c,out,content(lab),"native_process");
        auto& jc=vm().contours; if(jc.size()!=ref->contours.size()) c.fail("blobs:chang","Java received %zu blobs, C++ found %zu",jc.size(),ref->contours.size());
        for(size_t b=0;b<jc.size();b++) { auto& q=ref->contours[b]; vector<int> in32(q.internalIndexes.begin(),q.internalIndexes.end()); if(jc[b].first!=(int)q.id||jc[b].second.first!=(int)q.externalIndex||jc[b].second.second!=in32) c.fail("blobs:chang","blob %zu: Java received id %d external %d and %zu internal contours, C++ has id %u external %u and %zu",b,jc[b].first,jc[b].second.first,jc[b].second.second.size(),q.id,q.externalIndex,in32.size()); }
        i64 sets=self->o["packedPoints"]->o["sets"]->i["size"]; if(sets!=(i64)ref->packedPoints.set_info.size()) c.fail("sets:chang","Java received %lld contours, C++ has %zu",(long long)sets,ref->packedPoints.set_info.size());
        u64 pts=0; for(i64 q=0;q<sets;q++) { auto a=jset(self,(int)q); vector<Point2D<S32>> b; ref->packedPoints.load_set((uint32_t)q,b); bool same=a.size()==b.size(); for(size_t z=0;same&&z<a.size();z++) same=a[z].first==b[z].x&&a[z].second==b[z].y; if(!same) c.fail("points:chang","contour %lld differs: %zu points in Java, %zu in C++",(long long)q,a.size(),b.size()); pts+=a.size(); }
        c.ev("chang.images"); c.ev("chang.contours",(u64)sets); c.ev("chang.points",pts); if(ref->packedPoints._number_of_blocks>1) c.ev("chang.several.blocks"); }
    if(!ccall(c,"NativeChang2004.native_destroy",[&](JNIEnv* e){ CN(native_1destroy)(e,s); })||self->i["nativePtr"]!=0) c.fail("destroy:chang","native_destroy raised an exception or left the pointer"); }

template<class T> static JImage any(Rng& r, uint32_t w, uint32_t h) { return jimage<T>(r,w,h); }
static void unsupported(Ctx& c) { Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,12),h=(uint32_t)r.range(1,12); struct Ty { const char* n; bool integer; int bits; JImage (*mk)(Rng&,uint32_t,uint32_t); };
    static const Ty ty[]={{"U16",true,16,any<uint16_t>},{"S16",true,16,any<int16_t>},{"S32",true,32,any<int32_t>},{"S64",true,64,any<int64_t>},{"F64",false,64,any<double>}}; const Ty& t=ty[r.range(0,4)]; int op=(int)r.range(0,TKINDS+SKINDS-1); std::string what;
    JImage in,out,st; bool ok;
    if(op<TKINDS) { TParam p=tparam(r,op,false); p.integer=t.integer; what=tname(op); set_phase(what+" with unsupported "+t.n); Obj* self=towner(p); self->i["inputBits"]=self->i["outputBits"]=t.bits; in=t.mk(r,w,h); out=jimage<uint8_t>(r,w,h); if(!tinit(c,self,p)) { vm().pending=nullptr; c.ev("unsupported.type"); return; }
        ok=tprocess(c,op,self,in.o,out.o); vm().message+=""; std::string m=vm().message; vm().pending=nullptr; tdestroy(c,op,self); (void)m; }
    else { SParam p=sparam(r,op-TKINDS); what=sname(p.kind); bool integer=t.integer; int ib=t.bits, ob=t.bits; in=t.mk(r,w,h); out=t.mk(r,w,h); st=t.mk(r,w,h); Obj* ker; int dim=p.kind==CONV_2D?2:1; ker= integer? jkernel<int32_t>(dim,kdata<int32_t>(r,p),p.width,p.offset) : jkernel<double>(dim,kdata<double>(r,p),p.width,p.offset); std::string why=strf("image type %s",t.n);
        if(p.kind>=CONV_H) switch(r.range(0,3)) { default: break;
            case 0: if(p.kind<=CONV_2D) { why="output type"; bool f=r.chance(.4); integer=!f; ib=f?32:8; in= f?any<float>(r,w,h):any<U8>(r,w,h); ker= integer? jkernel<int32_t>(dim,kdata<int32_t>(r,p),p.width,p.offset) : jkernel<float>(dim,kdata<float>(r,p),p.width,p.offset); if(f) { out=any<double>(r,w,h); ob=64; } else if(r.chance(.5)) { out=any<U8>(r,w,h); ob=8; } else { out=any<int64_t>(r,w,h); ob=64; } } break;
            case 1: { why="kernel type"; integer=r.chance(.5); ib=integer?8:32; in= integer?any<U8>(r,w,h):any<float>(r,w,h); bool cv=p.kind<=CONV_2D; out= integer?(cv?any<S32>(r,w,h):any<U8>(r,w,h)):any<float>(r,w,h); ob= integer?(cv?32:8):32; if(integer) ker=jkernel<float>(dim,kdata<float>(r,p),p.width,p.offset); else if(r.chance(.5)) ker=jkernel<double>(dim,kdata<double>(r,p),p.width,p.offset); else ker=jkernel<int32_t>(dim,kdata<int32_t>(r,p),p.width,p.offset); break; }
            case 2: if(p.kind<=CONV_2D) { why="border"; p.border=r.pick({-1,0,2,6,100}); integer=r.chance(.5); ib=integer?8:32; in= integer?any<U8>(r,w,h):any<float>(r,w,h); out= integer?any<S32>(r,w,h):any<float>(r,w,h); ob=32; ker= integer? jkernel<int32_t>(dim,kdata<int32_t>(r,p),p.width,p.offset) : jkernel<float>(dim,kdata<float>(r,p),p.width,p.offset); c.ev("unsupported.border"); } break; }
        set_phase(what+" with unsupported "+why); Obj* self=jowner(sclass(p.kind),integer,ib,ob); ok=scall(c,p,self,in.o,out.o,st.o,ker); what+=" ("+why+")"; }
    if(ok) c.fail("unsupported-accepted:"+what,"%s was processed without an exception",what.c_str()); vm().pending=nullptr; if(!out.same()||!in.same()) c.fail("unsupported-wrote:"+what,"a rejected call changed an image"); c.ev("unsupported.type"); }

void run_case(Ctx& c) { Rng& r=c.r; vm().reset(); vm().copy_mode=r.chance(.5); c.ev(vm().copy_mode?"arrays.copied":"arrays.pinned"); c.nontrivial(); int k=(int)r.range(0,19);
    if(k<6) { TParam p=tparam(r,k,r.chance(.05)); c.note("%s",p.str().c_str()); if(p.integer) threshold<U8>(c,p); else threshold<F32>(c,p); c.ev(tname(k)); }
    else if(k<13) { SParam p=sparam(r,k-6); c.note("%s",p.str().c_str()); bool cv=p.kind>=CONV_H&&p.kind<=CONV_2D; if(r.chance(.4)) stateless<F32,F32,F32>(c,p); else if(!cv) stateless<U8,S32,U8>(c,p); else if(r.chance(.5)) stateless<U8,S32,S16>(c,p); else stateless<U8,S32,S32>(c,p); }
    else if(k<17) { c.note("contours"); chang(c); } else { c.note("unsupported type"); unsupported(c); }
    c.ev("native.calls.observed",vm().calls); vm().calls=0; c.hash(vm().gets); }
} // namespace vh
