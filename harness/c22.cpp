// C22: invalid requests are refused by an exception and leave everything as it was, usable and leak free.
#include "ops.hpp"
#include <boofcv/image_blur.h>
#include <boofcv/binary_ops.h>
#include <boofcv/threshold_block_filters.h>
#include <boofcv/contour.h>
#include <boofcv/packed_sets.h>
#include <boofcv/config_types.h>
#include <boofcv/image_convert.h>
namespace vh {
void setup_run() { large().p=0.002; families(); }
static void no_live(Ctx& c, const std::string& what) { if(!track_available()) return; AllocStats s=track_stats(); c.ev("leak.checks"); if(s.live_blocks) c.fail("leak:"+what,"%lld blocks with %lld bytes are still allocated after a refused request",(long long)s.live_blocks,(long long)s.live_bytes); }
// f must throw a std::exception
template<class F> void refuse(Ctx& c, const char* what, F f) { bool t=false; try { f(); } catch(const std::bad_alloc&) { c.fail(std::string("out-of-memory:")+what,"an invalid request ended in bad_alloc"); } catch(const std::exception& e) { t=true; } catch(...) { c.fail(std::string("not-an-exception:")+what,"something that is not a std::exception was thrown"); }
    if(!t) c.fail(std::string("accepted:")+what,"an invalid request was accepted: %s",what); Untrack u; c.ev("refused"); c.ev((std::string("refused.")+what).c_str()); }
template<class E> void image_state(Ctx& c, const Img<E>& i, const char* what) { if(const char* e=i.changed()) c.fail(std::string("state-changed:")+what,"%s",e); }

// ---------------------------------------------------------------- operations of the registry
static void operations(Ctx& c) {
    Rng& r=c.r; bool param=r.chance(.45); const Family* f; Op good,bad; GenOpt go; go.big=24; size_t wo=0; bool ws=false;
    for(;;) { f=&pick_family(r,[&](const Family& f){ return !param||f.can_fail; }); good=f->gen(r,go); GenOpt gb=go; if(param) gb.bad=true; bad=f->gen(r,gb); if(param) { if(bad.bad) break; continue; }
        // a view that would have to be reshaped
        std::vector<int> cand; for(size_t i=0;i<bad.out.size();i++) if(bad.out[i].reshapes) cand.push_back((int)i); for(size_t i=0;i<bad.ws.size();i++) if(bad.ws[i].reshapes) cand.push_back(-1-(int)i); if(cand.empty()) continue;
        int k=r.pick(cand); ws=k<0; wo=(size_t)(k<0?-1-k:k); break; }
    std::string base=f->name.substr(0,f->name.find('<')); std::string want=fresh_outcome(r,good); c.note("%s %s, then %s",param?"parameters":ws?"workspace view":"output view",op_str(bad).c_str(),op_str(good).c_str()); c.hash(op_sig(bad)); c.hash(op_sig(good)); if(want=="threw") c.fail("refused:"+good.family,"a legal request was refused"); c.state(hcomb(hbytes(base.data(),base.size()),param?0:ws?1:2));
    track_reset();
    { Track t; Bench b; 
      for(auto& p:bad.in) b.in.emplace_back(p->make(r,rand_kind(r)));
      auto wrong=[&](const OutSpec& s) { uint32_t w=s.w,h=s.h; switch(r.range(0,3)) { case 0: w++; break; case 1: h++; break; case 2: w=w?w-1:1; break; default: std::swap(w,h); if(w==h) w++; } Kind k=(Kind)r.pick({(int)WRAPPED,(int)SUB,(int)SUBSUB}); return s.type->make(r,k,w,h,s.b); };
      for(size_t i=0;i<bad.out.size();i++) b.out.emplace_back(!param&&!ws&&i==wo?wrong(bad.out[i]):make_output(r,bad.out[i],false)); for(size_t i=0;i<bad.ws.size();i++) b.ws.emplace_back(!param&&ws&&i==wo?wrong(bad.ws[i]):make_output(r,bad.ws[i],false)); b.collect();
      bool same=good.obj_key==bad.obj_key, warmed=false; if(bad.make_obj) b.obj=bad.make_obj(); if(bad.bind) b.shared=bad.bind(b.env); b.collect();
      if(good.make_obj&&same&&r.chance(.6)) { Bench g; build(r,good,g,true); g.obj=b.obj; g.collect(); std::string a=execute(good,g.env); if(a!=want) c.fail("result:"+good.family,"%s",describe_difference(want,a).c_str()); warmed=true; c.ev("object.used.before"); }
      std::string before,after; { Untrack u; for(auto& h:b.in) h->snapshot(); for(auto& h:b.out) h->snapshot(); for(auto& h:b.ws) h->snapshot(); for(auto& h:b.out) h->bytes(before); if(param) for(auto& h:b.ws) h->bytes(before); if(!param&&ws) { before.clear(); b.ws[wo]->bytes(before); } }
      std::string got=execute(bad,b.env); if(got!="threw") c.fail("accepted:"+bad.family,"an invalid request was accepted: %s",c.desc.c_str());
      for(auto& h:b.in) if(const char* e=h->changed()) c.fail("state-changed:"+bad.family,"input of a refused request: %s",e);
      for(auto& h:b.out) if(const char* e=h->outside()) c.fail("state-changed:"+bad.family,"output of a refused request: %s",e); for(auto& h:b.ws) if(const char* e=h->outside()) c.fail("state-changed:"+bad.family,"workspace of a refused request: %s",e);
      { Untrack u; if(!param&&ws) b.ws[wo]->bytes(after); else { for(auto& h:b.out) h->bytes(after); if(param) for(auto& h:b.ws) h->bytes(after); } }
      if(after!=before) c.fail("state-changed:"+bad.family,"a refused request changed an output or workspace: %s",describe_difference(before,after).c_str());
      { Untrack u; c.ev(param?"operation.parameters":ws?"operation.workspace.view":"operation.output.view"); c.ev((std::string("operation.")+base).c_str()); }
      // the object still works, and so do the images
      { Bench g; build(r,good,g,true); if(good.make_obj&&same) { g.obj=b.obj; g.collect(); Untrack u; c.ev("object.used.after"); } std::string a=execute(good,g.env); if(a!=want) c.fail("unusable-after-refusal:"+good.family,"after a refused request%s: %s",warmed?" on a used object":"",describe_difference(want,a).c_str()); }
      { // the same images with a legal request
        Bench g; for(auto& p:good.in) g.in.emplace_back(p->make(r,OWNER)); std::vector<Holder*> keep; for(size_t i=0;i<good.out.size();i++) { Holder* h=i<b.out.size()?b.out[i].get():nullptr; if(h&&!h->view()&&good.out[i].reshapes&&bad.out[i].b==good.out[i].b) keep.push_back(h); else { g.out.emplace_back(make_output(r,good.out[i],true)); keep.push_back(g.out.back().get()); } } for(auto& s:good.ws) g.ws.emplace_back(make_output(r,s,true)); g.collect(); g.env.out=keep; if(good.make_obj) g.obj=same?b.obj:good.make_obj(); if(good.bind) g.shared=good.bind(g.env); g.env.obj=g.obj.get(); g.env.shared=g.shared.get(); std::string a=execute(good,g.env); if(a!=want) c.fail("unusable-after-refusal:"+good.family,"with an output of the refused request: %s",describe_difference(want,a).c_str()); }
    }
    no_live(c,bad.family); c.nontrivial();
}
// ---------------------------------------------------------------- shape checks of operations that do not reshape
template<class E> void shapes(Ctx& c) {
    Rng& r=c.r; typedef typename TypeInfo<E>::signed_type K; uint32_t w,h; rand_size(r,w,h,20); uint32_t w2=w,h2=h; switch(r.range(0,4)) { case 0: w2=w+(uint32_t)r.range(1,4); break; case 1: h2=h+(uint32_t)r.range(1,4); break; case 2: w2=w+1; h2=h+1; break; case 3: if(w>1) w2=w-1; else h2++; break; default: if(w!=h) std::swap(w2,h2); else h2--; }
    double lo=0,hi=100; Mat<E> m=rand_mat<E>(r,w,h,lo,hi),m2=rand_mat<E>(r,w2,h2,lo,hi); Img<E> in,out; in.make(r,rand_kind(r),m); out.make(r,rand_kind(r),m2); in.snapshot(); out.snapshot(); c.hash(m.hash()); c.hash(m2.hash()); int k=(int)r.range(0,6); c.note("shape check %d %s %ux%u into %ux%u",k,TName<E>::n(),w,h,w2,h2); uint32_t rad=(uint32_t)r.range(1,5); Kernel1D<K> kr((uint32_t)r.range(1,7)); for(uint32_t i=0;i<kr.width;i++) kr.data[i]=(K)1; c.state(hcomb(900+k,hbytes(TName<E>::n(),3)));
    Img<U8> b; b.make(r,rand_kind(r),rand_mat<U8>(r,w2,h2,0,1)); b.snapshot(); ConfigLength bl=ConfigLength::fixed(1); track_reset();
    { Track t; switch(k) { case 0: refuse(c,"shape.mean.horizontal",[&]{ ConvolveImageMean::horizontal(*in,*out,rad); }); break; case 1: refuse(c,"shape.mean.vertical",[&]{ ConvolveImageMean::vertical(*in,*out,rad); }); break;
        case 2: refuse(c,"shape.normalized.horizontal",[&]{ ConvolveNormalized::horizontal(kr,*in,*out); }); break; case 3: refuse(c,"shape.normalized.vertical",[&]{ ConvolveNormalized::vertical(kr,*in,*out); }); break;
        case 4: { ThresholdBlockMean<E> f(bl,true,1.0,true); refuse(c,"shape.block.mean",[&]{ f.process(*in,*b); }); break; } case 5: { ThresholdBlockMinMax<E> f(1,bl,true,1.0,true); refuse(c,"shape.block.minmax",[&]{ f.process(*in,*b); }); break; } default: { ThresholdBlockOtsu<E> f(true,bl,0,1.0,true,true); refuse(c,"shape.block.otsu",[&]{ f.process(*in,*b); }); } } }
    no_live(c,"shapes"); image_state(c,in,"shapes"); image_state(c,out,"shapes"); image_state(c,b,"shapes"); c.nontrivial();
}
static void logic_shapes(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,20); Img<U8> a,b,o; a.make(r,rand_kind(r),rand_mat<U8>(r,w,h,0,1)); uint32_t w2=w+(r.chance(.5)?1:0),h2=w2==w?h+1:h; if(r.chance(.3)&&w!=h) { w2=h; h2=w; } b.make(r,rand_kind(r),rand_mat<U8>(r,w2,h2,0,1)); o.make(r,rand_kind(r),rand_mat<U8>(r,(uint32_t)r.range(0,9),(uint32_t)r.range(0,9),0,1)); a.snapshot(); b.snapshot(); o.snapshot(); c.note("logic %ux%u and %ux%u",w,h,w2,h2); c.hash(r.next()); c.state(1000); track_reset();
    { Track t; if(r.chance(.5)) refuse(c,"shape.and",[&]{ BinaryImageOps::logicAnd(*a,*b,*o); }); else refuse(c,"shape.or",[&]{ BinaryImageOps::logicOr(*a,*b,*o); }); } no_live(c,"logic"); image_state(c,a,"logic"); image_state(c,b,"logic"); image_state(c,o,"logic"); c.nontrivial(); }
// ---------------------------------------------------------------- containers
static uint32_t huge(Rng& r) { return (uint32_t)r.pick({(i64)0xFFFFFFFFLL,(i64)0x80000000LL,(i64)0x7FFFFFFFLL,(i64)65536}); }
static uint32_t beyond(Rng& r, uint32_t n) { return r.chance(.2)?std::max(n,huge(r)):n+(uint32_t)r.range(0,r.chance(.5)?0:5); }
template<class E> void gray_requests(Ctx& c) {
    Rng& r=c.r; uint32_t w,h; rand_size(r,w,h,15); Mat<E> m=rand_mat<E>(r,w,h,0,100); Img<E> i; i.make(r,rand_kind(r),m); i.snapshot(); int k=(int)r.range(0,7); c.note("gray request %d %s %s %ux%u",k,TName<E>::n(),kname(i.kind),w,h); c.hash(m.hash()); c.hash((u64)k); c.state(hcomb(1100+k,i.kind)); Gray<E>& g=*i; uint32_t bx=beyond(r,w),by=beyond(r,h); track_reset();
    { Track t; switch(k) {
        case 0: refuse(c,"gray.at.x",[&]{ g.at(bx,(uint32_t)r.range(0,h-1)); }); break; case 1: refuse(c,"gray.at.y",[&]{ g.at((uint32_t)r.range(0,w-1),by); }); break;
        case 2: refuse(c,"gray.sub.x",[&]{ g.makeSubimage(0,0,bx+(bx==w||bx==0?1:0),h); }); break; case 3: refuse(c,"gray.sub.y",[&]{ g.makeSubimage(0,0,w,by+(by==h||by==0?1:0)); }); break;
        case 4: { uint32_t x0=(uint32_t)r.range(1,w),y0=(uint32_t)r.range(1,h); bool x=r.chance(.5); refuse(c,"gray.sub.reversed",[&]{ if(x) g.makeSubimage(x0,0,(uint32_t)r.range(0,x0-1),h); else g.makeSubimage(0,y0,w,(uint32_t)r.range(0,y0-1)); }); break; }
        case 5: { Gray<E> v=g.makeSubimage(0,0,w,h); refuse(c,"gray.view.reshape",[&]{ if(r.chance(.5)) v.reshape(w+1,h); else v.reshape(w,h?h-1:1); }); if(v.width!=w||v.height!=h||v.data!=g.data||!v.subimage) c.fail("state-changed:gray.view.reshape","a refused reshape changed the view"); break; }
        case 6: { Gray<E> v=g.makeSubimage(0,0,w,h),s(w+(uint32_t)r.range(1,3),h); bool as=r.chance(.5); refuse(c,as?"gray.view.assign":"gray.view.copy",[&]{ if(as) v=s; else v.copy(s); }); if(v.width!=w||v.height!=h||v.data!=g.data||!v.subimage) c.fail("state-changed:gray.view.copy","a refused copy changed the view"); break; }
        default: { E q=(E)3; refuse(c,"gray.ragged",[&]{ switch(r.range(0,3)) { case 0: { Gray<E> x({{q,q},{q}}); break; } case 1: { Gray<E> x({{q},{q,q,q}}); break; } case 2: { Gray<E> x({{q,q},{q,q},{}}); break; } default: { Gray<E> x({{},{q}}); } } }); } } }
    no_live(c,"gray"); image_state(c,i,"gray"); Mat<E> n=i.read(); if(!(n==m)) c.fail("state-changed:gray","pixels differ"); c.nontrivial(); }
template<class E> void inter_requests(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,9),h=(uint32_t)r.range(1,9),b=(uint32_t)r.range(1,4); PixelsP p=inter<E>(r,w,h,b,0,100); std::unique_ptr<Holder> H(p->make(r,rand_kind(r))); H->snapshot(); Interleaved<E>& g=I<E>(H.get()); int k=(int)r.range(0,8); c.note("interleaved request %d %s %s %ux%ux%u",k,TName<E>::n(),kname(H->kind),w,h,b); c.hash(p->hash()); c.hash((u64)k); c.state(hcomb(1200+k,H->kind)); uint32_t bx=beyond(r,w),by=beyond(r,h),bb=beyond(r,b); track_reset();
    auto same=[&](const Interleaved<E>& v, const char* what) { if(v.width!=w||v.height!=h||v.num_bands!=b||v.data!=g.data||v.stride!=g.stride||v.offset!=g.offset||!v.subimage) c.fail(std::string("state-changed:")+what,"a refused request changed the view"); };
    { Track t; switch(k) {
        case 0: refuse(c,"interleaved.at.x",[&]{ g.at(bx,0,0); }); break; case 1: refuse(c,"interleaved.at.y",[&]{ g.at(0,by,0); }); break; case 2: refuse(c,"interleaved.at.band",[&]{ g.at(w-1,h-1,bb); }); break;
        case 3: refuse(c,"interleaved.sub",[&]{ if(r.chance(.5)) g.makeSubimage(0,0,bx+(bx==w?1:0),h); else g.makeSubimage(0,0,w,by+(by==h?1:0)); }); break; case 4: refuse(c,"interleaved.sub.reversed",[&]{ if(r.chance(.5)) g.makeSubimage(w,0,w-1,h); else g.makeSubimage(0,h,w,h-1); }); break;
        case 5: { Interleaved<E> v=g.makeSubimage(0,0,w,h); refuse(c,"interleaved.view.reshape",[&]{ if(r.chance(.5)) v.reshape(w+1,h); else v.reshape(w,h,b+1); }); same(v,"interleaved.view.reshape"); break; }
        case 6: { Interleaved<E> v=g.makeSubimage(0,0,w,h); refuse(c,"interleaved.view.bands",[&]{ v.setNumberOfBands(b>1&&r.chance(.5)?b-1:b+1); }); same(v,"interleaved.view.bands"); break; }
        default: { Interleaved<E> v=g.makeSubimage(0,0,w,h); Interleaved<E> s(w+(k==7),h,b+(k==8)); bool as=r.chance(.5); refuse(c,as?"interleaved.view.assign":"interleaved.view.set",[&]{ if(as) v=s; else v.setTo(s); }); same(v,"interleaved.view.set"); } } }
    no_live(c,"interleaved"); if(const char* e=H->changed()) c.fail("state-changed:interleaved","%s",e); c.nontrivial(); }
static void planar_requests(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,9),h=(uint32_t)r.range(1,9),b=(uint32_t)r.range(0,4); typedef Planar<Gray<U8>> P; int k=(int)r.range(0,3); c.note("planar request %d %ux%ux%u",k,w,h,b); c.hash(r.next()); c.state(1300+(u64)k); uint32_t bb=beyond(r,b); track_reset();
    { Track t; P p(w,h,b); for(uint32_t q=0;q<b;q++) for(uint32_t i=0;i<w*h;i++) p.getBand(q).data[i]=(U8)(i*7+q); const void* band=b?(void*)p.bands[0]:nullptr;
      switch(k) { case 0: refuse(c,"planar.band",[&]{ p.getBand(bb); }); break; case 1: refuse(c,"planar.at.band",[&]{ p.at(0,0,bb); }); break; case 2: if(b) refuse(c,"planar.at.x",[&]{ p.at(beyond(r,w),0,b-1); }); break; default: if(b) refuse(c,"planar.at.y",[&]{ p.at(0,beyond(r,h),b-1); }); }
      if(p.width!=w||p.height!=h||p.num_bands!=b||(b&&p.bands[0]!=band)) c.fail("state-changed:planar","shape or bands changed"); for(uint32_t q=0;q<b;q++) for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) if(p.at(x,y,q)!=(U8)((y*w+x)*7+q)) c.fail("state-changed:planar","pixels changed"); }
    no_live(c,"planar"); c.nontrivial(); }
template<class E> void array_requests(Ctx& c) {
    Rng& r=c.r; uint32_t n=(uint32_t)r.range(0,20),cap=n+(uint32_t)r.range(0,5); std::vector<E> buf(cap+1),ref; for(auto& v:buf) v=garbage<E>(r); ref=buf; bool wrap=r.chance(.7); int k=(int)r.range(0,5); if(k>0) wrap=true; c.note("array request %d size %u capacity %u",k,n,cap); c.hash(r.next()); c.state(1400+(u64)k); track_reset();
    { Track t; GrowArray<E> own(n); for(uint32_t i=0;i<n;i++) own[i]=buf[i]; GrowArray<E> w(buf.data(),cap,n); GrowArray<E>& a=wrap?w:own; const void* d=a.data; GrowArray<E> src((uint32_t)r.range(0,30)); uint32_t len=(uint32_t)r.range(0,30); std::vector<E> v((size_t)len+1);
      switch(k) { case 0: refuse(c,"array.at",[&]{ a.at(beyond(r,n)); }); break; case 1: refuse(c,"array.wrapped.resize",[&]{ a.resize(len); }); break; case 2: refuse(c,"array.wrapped.grow",[&]{ a.grow_array(len); }); break; case 3: refuse(c,"array.wrapped.assign",[&]{ a=src; }); break; case 4: refuse(c,"array.wrapped.set",[&]{ a.set(v.data(),len); }); break; default: refuse(c,"array.wrapped.setTo",[&]{ a.setTo({(E)1,(E)2}); }); }
      if(a.size!=n||a.data!=d||a.array_length!=(wrap?cap:n)) c.fail("state-changed:array","size or storage changed"); for(uint32_t i=0;i<n;i++) if(memcmp(&a[i],&ref[i],sizeof(E))) c.fail("state-changed:array","element %u changed",i); if(memcmp(buf.data(),ref.data(),buf.size()*sizeof(E))) c.fail("state-changed:array","wrapped memory changed"); }
    no_live(c,"array"); c.nontrivial(); }
template<class E> void kernel_requests(Ctx& c) {
    Rng& r=c.r; uint32_t w=(uint32_t)r.range(1,9),o=(uint32_t)r.range(0,w-1); int k=(int)r.range(0,11); c.note("kernel request %d %s width %u origin %u",k,TName<E>::n(),w,o); c.hash(r.next()); c.state(1500+(u64)k); track_reset();
    { Track t; Kernel1D<E> a(w,o); Kernel2D<E> b(w,o); for(uint32_t i=0;i<w;i++) a.at(i)=(E)(i+1); for(uint32_t i=0;i<w*w;i++) b.data[i]=(E)(i+1); uint32_t nw=(uint32_t)r.range(0,12),no=beyond(r,nw); E q=(E)2;
      switch(k) { case 0: refuse(c,"kernel.origin.1d",[&]{ Kernel1D<E> x(nw,no); }); break; case 1: refuse(c,"kernel.origin.2d",[&]{ Kernel2D<E> x(nw,no); }); break; case 2: refuse(c,"kernel.reshape.1d",[&]{ a.reshape(nw,no); }); break; case 3: refuse(c,"kernel.reshape.2d",[&]{ b.reshape(nw,no); }); break;
        case 4: refuse(c,"kernel.list.origin.1d",[&]{ Kernel1D<E> x(beyond(r,3),{q,q,q}); }); break; case 5: refuse(c,"kernel.list.origin.2d",[&]{ Kernel2D<E> x(beyond(r,2),{{q,q},{q,q}}); }); break; case 6: refuse(c,"kernel.list.ragged",[&]{ switch(r.range(0,3)) { case 0: { Kernel2D<E> x(0,{{q,q},{q}}); break; } case 1: { Kernel2D<E> x(1,{{q},{q,q}}); break; } case 2: { Kernel2D<E> x(0,{{q,q},{q,q},{q,q}}); break; } default: { Kernel2D<E> x(1,{{q,q,q},{q,q,q}}); } } }); break;
        case 7: refuse(c,"kernel.at.1d",[&]{ a.at(beyond(r,w)); }); break; case 8: refuse(c,"kernel.at.2d",[&]{ if(r.chance(.5)) b.at(beyond(r,w),0); else b.at(0,beyond(r,w)); }); break;
        case 9: refuse(c,"kernel.sigma",[&]{ double s=r.pick({0.0,-1.0,-0.001}); int wd=(int)r.range(-3,0); if(r.chance(.5)) FactoryKernel::gaussian1D<E>(s,wd); else FactoryKernel::gaussian2D<E>(s,wd); }); break; case 10: refuse(c,"kernel.sigma.from.radius",[&]{ if(r.chance(.5)) FactoryKernel::sigmaForRadius(r.pick({0.0,-2.0}),(int)r.range(0,3)); else FactoryKernel::radiusForSigma(r.pick({0.0,-2.0}),(int)r.range(0,3)); }); break;
        default: refuse(c,"kernel.width.zero",[&]{ switch(r.range(0,3)) { case 0: { Kernel1D<E> x((uint32_t)0); break; } case 1: { Kernel2D<E> x((uint32_t)0); break; } case 2: FactoryKernel::mean1D<E>(0); break; default: FactoryKernel::table1D<E>(0); } }); }
      if(a.width!=w||a.offset!=o||a.data.size!=w||b.width!=w||b.offset!=o||b.data.size!=w*w) c.fail("state-changed:kernel","shape changed"); for(uint32_t i=0;i<w;i++) if(a[i]!=(E)(i+1)) c.fail("state-changed:kernel","entry changed"); for(uint32_t i=0;i<w*w;i++) if(b.data[i]!=(E)(i+1)) c.fail("state-changed:kernel","entry changed");
      a.reshape(w+2,w+1); a=Kernel1D<E>(3); if(a.width!=3||a.offset!=1) c.fail("unusable-after-refusal:kernel","assignment"); }
    no_live(c,"kernel"); c.nontrivial(); }
static void set_requests(Ctx& c) {
    Rng& r=c.r; uint32_t bs=(uint32_t)r.range(1,8); int sets=(int)r.range(0,5),k=(int)r.range(0,5); c.note("packed set request %d, %d sets in blocks of %u",k,sets,bs); c.hash(r.next()); c.state(1600+(u64)k); track_reset();
    { Track t; PackedSet<int> p(bs); std::vector<std::vector<int>> m; int v=0; for(int i=0;i<sets;i++) { p.start_new_set(); m.emplace_back(); for(int q=(int)r.range(0,9);q>0;q--) { p.push_tail(v); m.back().push_back(v++); } } uint32_t bset=beyond(r,(uint32_t)sets); std::vector<int> out{1,2,3};
      uint32_t s=sets?(uint32_t)r.range(0,sets-1):0; if(!sets) k=std::min(k,2);
      switch(k) { case 0: refuse(c,"sets.at.set",[&]{ p.at(bset,0); }); break; case 1: refuse(c,"sets.load",[&]{ p.load_set(bset,out); }); if(out!=std::vector<int>({1,2,3})) c.fail("state-changed:sets","a refused load changed the vector"); break; case 2: refuse(c,"sets.write.set",[&]{ p.write_set(bset,out); }); break;
        case 3: refuse(c,"sets.at.element",[&]{ p.at(s,beyond(r,(uint32_t)m[s].size())); }); break; default: { std::vector<int> in(m[s].size()+(size_t)r.range(1,3),77); if(m[s].size()&&r.chance(.5)) in.resize(m[s].size()-1); refuse(c,"sets.write.size",[&]{ p.write_set(s,in); }); } }
      if(p.number_of_sets()!=m.size()) c.fail("state-changed:sets","number of sets"); for(uint32_t i=0;i<m.size();i++) { std::vector<int> o; p.load_set(i,o); if(o!=m[i]) c.fail("state-changed:sets","set %u changed",i); } p.push_tail(5); if(p.size_of_tail()!=(m.empty()?1:m.back().size()+1)) c.fail("unusable-after-refusal:sets","push"); }
    no_live(c,"sets"); c.nontrivial(); }
static void other_requests(Ctx& c) {
    Rng& r=c.r; int k=(int)r.range(0,4); c.note("other request %d",k); c.hash(r.next()); c.state(1700+(u64)k); track_reset();
    { Track t; switch(k) {
        case 0: { BorderType bt=(BorderType)r.pick({(int)SKIP,(int)NORMALIZED,7}); refuse(c,"border.unknown",[&]{ FactoryImageBorder::create_SB<U8>(bt); }); break; }
        case 1: { ConfigLength l((double)-r.range(1,9)*.5,0.0); l.fraction=-.25; refuse(c,"length.invalid",[&]{ l.checkValidity(); }); break; }
        case 2: { ConfigLength l((double)-r.range(1,9)*.5,-(double)r.range(1,9)*.25); refuse(c,"length.invalid",[&]{ l.checkValidity(); }); break; }
        case 3: { Img<U8> in; uint32_t w,h; { Untrack u; rand_size(r,w,h,16); in.make(r,rand_kind(r),rand_mat<U8>(r,w,h,0,255)); in.snapshot(); } Gray<U8> out(3,2),st(2,3); out.data[5]=9; st.data[4]=8; refuse(c,"blur.radius",[&]{ BlurImageOps::mean(*in,out,0,st); }); if(out.width!=3||out.height!=2||out.data[5]!=9||st.width!=2||st.data[4]!=8) c.fail("state-changed:blur.radius","output or storage changed"); image_state(c,in,"blur"); break; }
        default: { Img<F32> in; uint32_t w,h; { Untrack u; rand_size(r,w,h,16); in.make(r,rand_kind(r),rand_mat<F32>(r,w,h,0,255)); in.snapshot(); } Gray<F32> out(3,2),st(2,3); out.data[5]=9; refuse(c,"blur.sigma",[&]{ BlurImageOps::gaussian(*in,out,0.0,(int)r.range(-2,1),st); }); if(out.width!=3||out.height!=2||out.data[5]!=9||st.width!=2) c.fail("state-changed:blur.sigma","output or storage changed"); image_state(c,in,"blur"); } } }
    no_live(c,"other"); c.nontrivial(); }
void run_case(Ctx& c) {
    Rng& r=c.r; switch(r.range(0,11)) { case 0: case 1: case 2: case 3: operations(c); break;
        case 4: switch(r.range(0,3)) { case 0: shapes<U8>(c); break; case 1: shapes<F32>(c); break; case 2: shapes<S32>(c); break; default: shapes<F64>(c); } break; case 5: logic_shapes(c); break;
        case 6: r.chance(.5)?gray_requests<U8>(c):r.chance(.5)?gray_requests<F32>(c):gray_requests<S16>(c); break; case 7: r.chance(.5)?inter_requests<U8>(c):r.chance(.5)?inter_requests<F64>(c):inter_requests<S32>(c); break; case 8: r.chance(.4)?planar_requests(c):set_requests(c); break;
        case 9: r.chance(.5)?array_requests<S32>(c):r.chance(.5)?array_requests<U8>(c):array_requests<F64>(c); break; case 10: r.chance(.5)?kernel_requests<S32>(c):r.chance(.5)?kernel_requests<F32>(c):kernel_requests<F64>(c); break; default: other_requests(c); }
}
}
