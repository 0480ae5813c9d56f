// C23: everything is freed; repeated work reaches a steady state; failures leak nothing and leave objects usable.
#include "pool.hpp"
#include <boofcv/convolve_kernels.h>
#include <boofcv/packed_sets.h>
namespace vh {
extern thread_local bool nf_native; extern thread_local i64 nf_countdown; extern thread_local u64 nf_count;
void setup_run() { families(); }
struct Fault { Fault(i64 n) { nf_count=0; nf_countdown=n; nf_native=true; } ~Fault() { nf_native=false; nf_countdown=-1; } };
static void warm() { static bool done=false; if(done) return; done=true; std::ostringstream o; static char buf[8192]; setvbuf(stdout,buf,_IOFBF,sizeof buf); o<<1.5<<strf("%g",2.5); }
static void no_live(Ctx& c, const char* what) { if(!track_available()) return; AllocStats s=track_stats(); c.ev("leak.checks"); if(s.live_blocks) c.fail(std::string("leak:")+what,"%lld blocks with %lld bytes are still allocated after every object was destroyed",(long long)s.live_blocks,(long long)s.live_bytes); }

struct Seen { std::vector<const void*> ptrs; u64 allocs; bool operator==(const Seen& o) const { return ptrs==o.ptrs; } };
// the same work several times with the same objects
static void cycles(Ctx& c) {
    Rng& r=c.r; int nf=(int)r.range(1,3),n=(int)r.range(2,6); std::vector<const Family*> fs; bool obj=r.chance(.6); for(int k=0;k<nf;k++) fs.push_back(&pick_family(r,[&](const Family& f){ return !obj||f.object||r.chance(.05); }));
    std::vector<Op> ops; for(int k=0;k<n;k++) { GenOpt go; go.big=k==0?64:24; const Family* f=fs[(size_t)(k%nf)]; go.bad=k>0&&f->can_fail&&r.chance(.15); if(k==0) { go.fixed=r.chance(.6); go.fw=(uint32_t)r.range(30,64); go.fh=(uint32_t)r.range(30,64); } ops.push_back(f->gen(r,go)); c.note("%s",op_str(ops.back()).c_str()); c.hash(op_sig(ops.back())); if(ops.back().bad) c.ev("failing.operations"); c.ev(ops.back().family.substr(0,ops.back().family.find('<')).c_str()); }
    u64 h=0; for(auto& o:ops) h=hcomb(h,hbytes(o.family.data(),o.family.size())); c.state(h); int ncyc=(int)r.range(4,6); track_reset();
    { std::vector<std::vector<Seen>> seen; std::vector<i64> live; std::vector<std::string> first; Track t; Pool p; u64 seed=r.next();
      for(int cyc=0;cyc<ncyc;cyc++) { Rng q(seed); { Untrack u; seen.push_back(std::vector<Seen>()); }
        for(size_t k=0;k<ops.size();k++) { bool reused; p.prepare(q,ops[k],&reused); AllocStats a=track_stats(); std::string got=execute(ops[k],p.env); AllocStats b=track_stats(); c.ev("executions");
            Untrack u; Seen s; s.allocs=b.allocs-a.allocs; for(auto x:p.env.out) s.ptrs.push_back(x->ptr()); for(auto x:p.env.ws) s.ptrs.push_back(x->ptr()); if(ops[k].buffers) ops[k].buffers(p.env,s.ptrs);
            if(cyc==0) first.push_back(got); else if(got!=first[k]) c.fail("repetition-changes:"+ops[k].family,"repetition %d of %s: %s",cyc+1,op_str(ops[k]).c_str(),describe_difference(first[k],got).c_str());
            if(cyc>=2) { Seen& o=seen[1][k]; if(!(s==o)) c.fail("reallocated:"+ops[k].family,"repetition %d of %s uses other buffers than repetition 2, although nothing larger was requested since",cyc+1,op_str(ops[k]).c_str());
                if(track_available()&&cyc>=3&&s.allocs>seen[2][k].allocs) c.fail("more-allocations:"+ops[k].family,"repetition %d of %s made %llu allocations, repetition 3 made %llu",cyc+1,op_str(ops[k]).c_str(),(unsigned long long)s.allocs,(unsigned long long)seen[2][k].allocs); }
            seen.back().push_back(s); }
        p.env.in.clear(); p.env.in.shrink_to_fit(); Untrack u; live.push_back(track_stats().live_bytes); if(cyc>=2&&live[cyc]>live[1]) c.fail("memory-grows","after repetition %d of the same work %lld bytes are held, after repetition 2 it was %lld",cyc+1,(long long)live[cyc],(long long)live[1]); c.ev("repetitions"); }
    }
    no_live(c,"cycles"); c.nontrivial();
}
// allocation failures inside one operation, then the same operation again
static void faults(Ctx& c) {
    Rng& r=c.r; const Family& f=pick_family(r); GenOpt go; go.big=24; Op o=f.gen(r,go),o2=f.gen(r,go); c.note("faults %s",op_str(o).c_str()); c.hash(op_sig(o)); c.ev(f.name.substr(0,f.name.find('<')).c_str()); c.state(hbytes(f.name.data(),f.name.size()));
    std::string want=fresh_outcome(r,o),want2=fresh_outcome(r,o2); if(want=="threw"||want2=="threw") c.fail("refused:"+o.family,"a legal request was refused"); if(o2.obj_key!=o.obj_key) { o2=o; want2=want; }
    u64 seed=r.next(); int lim=c.thorough?400:60; i64 k=0; bool sm=r.chance(.5);
    for(int it=0;it<lim;it++) { track_reset(); bool failed=false; std::string got; u64 n=0;
        { Track t; Rng q(seed); Bench b; { // outputs start small so that the operation has to grow them
            for(auto& p:o.in) b.in.emplace_back(p->make(q,OWNER)); for(auto& s:o.out) b.out.emplace_back(sm&&s.reshapes?s.type->make(q,OWNER,0,0,s.b):make_output(q,s,true)); for(auto& s:o.ws) b.ws.emplace_back(sm&&s.reshapes?s.type->make(q,OWNER,0,0,s.b):make_output(q,s,true)); b.collect(); if(o.make_obj) b.obj=o.make_obj(); if(o.bind) b.shared=o.bind(b.env); b.collect(); }
          for(auto& h:b.in) { Untrack u; h->snapshot(); }
          try { Fault x(k); got=execute(o,b.env); n=nf_count; } catch(const std::bad_alloc&) { failed=true; }
          if(failed) { c.ev("faults.injected");
            for(auto& h:b.in) if(const char* e=h->changed()) c.fail("input-modified:"+o.family,"allocation %lld failed: %s",(long long)k,e);
            std::string junk; for(auto& h:b.out) h->bytes(junk); for(auto& h:b.ws) h->bytes(junk);                // whatever shape they have, their pixels must exist
            // same object and storage, without a failure
            for(size_t i=0;i<b.out.size();i++) if(!o.out[i].reshapes) { uint32_t w,h,bb; b.out[i]->shape(w,h,bb); if(w!=o.out[i].w||h!=o.out[i].h) b.out[i]->reshape(o.out[i].w,o.out[i].h,o.out[i].b); if(o.out[i].init) b.out[i]->load(*o.out[i].init); }
            std::string again=execute(o,b.env); if(again!=want) c.fail("unusable-after-failure:"+o.family,"allocation %lld failed; repeating the call on the same objects: %s",(long long)k,describe_difference(want,again).c_str());
            if(r.chance(.3)) { Bench b2; b2.obj=b.obj; build(q,o2,b2,true); b2.obj=b.obj; b2.collect(); std::string a2=execute(o2,b2.env); if(a2!=want2) c.fail("unusable-after-failure:"+o.family,"allocation %lld failed; another call on the same object (%s): %s",(long long)k,op_str(o2).c_str(),describe_difference(want2,a2).c_str()); } } }
        no_live(c,"faults"); c.ev("executions");
        if(!failed) { if(got!=want) c.fail("result:"+o.family,"%s",describe_difference(want,got).c_str()); if(it==0) c.ev("without.allocations"); c.ev("faults.exhausted"); break; }
        k+=k<12?1:r.range(1,1+k/4); }
    c.nontrivial();
}
// failures inside containers
template<class T> static u64 touch(const Gray<T>& g) { u64 h=0; for(uint32_t y=0;y<g.height;y++) if(g.width) h=hcomb(h,hbytes(&g.data[g.offset+(size_t)y*g.stride],sizeof(T)*g.width)); return h; }
template<class T> static u64 touch(const Interleaved<T>& g) { u64 h=0; for(uint32_t y=0;y<g.height;y++) if(g.width*g.num_bands) h=hcomb(h,hbytes(&g.data[g.offset+(size_t)y*g.stride],sizeof(T)*g.width*g.num_bands)); return h; }
template<class T> static u64 touch(const Planar<T>& g) { u64 h=0; for(uint32_t b=0;b<g.num_bands;b++) h=hcomb(h,touch(g.getBand(b))); return h; }
static uint32_t sz(Rng& r) { return (uint32_t)r.range(0,r.chance(.3)?40:9); }
template<class F> static bool attempt(Ctx& c, F f) { try { Fault x(c.r.chance(.6)?c.r.range(0,3):-1); f(); return true; } catch(const std::bad_alloc&) { c.ev("faults.injected"); c.ev("container.faults"); return false; } }
template<class T> static void gray_history(Ctx& c) { Rng& r=c.r; Gray<T> a(sz(r),sz(r)),b(sz(r),sz(r));
    for(int k=0;k<12;k++) { uint32_t w=sz(r),h=sz(r); u64 before=touch(b); switch(r.range(0,5)) { case 0: attempt(c,[&]{ a.reshape(w,h); }); break; case 1: attempt(c,[&]{ a=b; }); break; case 2: attempt(c,[&]{ Gray<T> q(b); q.reshape(w,h); }); break; case 3: attempt(c,[&]{ a.copy(b); }); break;
            case 4: { uint32_t x=(uint32_t)r.range(0,a.width),y=(uint32_t)r.range(0,a.height); attempt(c,[&]{ Gray<T> v=a.makeSubimage(x,y,a.width,a.height); a=v; }); break; } default: attempt(c,[&]{ Gray<T> q(w,h); q=a; }); }
        touch(a); if(touch(b)!=before) c.fail("source-modified","a failing operation changed its source"); if(r.chance(.2)) { b.reshape(w,h); for(uint32_t i=0;i<w*h;i++) b.data[i]=garbage<T>(r); } c.ev("container.operations"); }
    a=b; if(touch(a)!=touch(b)) c.fail("unusable-after-failure:Gray","assignment after failures does not copy"); }
template<class T> static void inter_history(Ctx& c) { Rng& r=c.r; Interleaved<T> a(sz(r),sz(r),(uint32_t)r.range(1,4)),b(sz(r),sz(r),(uint32_t)r.range(1,4));
    for(int k=0;k<12;k++) { uint32_t w=sz(r),h=sz(r),n=(uint32_t)r.range(1,4); u64 before=touch(b); switch(r.range(0,6)) { case 0: attempt(c,[&]{ a.reshape(w,h); }); break; case 1: attempt(c,[&]{ a=b; }); break; case 2: attempt(c,[&]{ Interleaved<T> q(b); q.reshape(w,h,n); }); break; case 3: attempt(c,[&]{ a.setTo(b); }); break; case 4: attempt(c,[&]{ a.reshape(w,h,n); }); break; case 5: attempt(c,[&]{ a.setNumberOfBands(n); }); break; default: attempt(c,[&]{ Interleaved<T> q(w,h,n); q=a; }); }
        touch(a); if(touch(b)!=before) c.fail("source-modified","a failing operation changed its source"); if(r.chance(.2)) { b.reshape(w,h,n); for(uint32_t i=0;i<w*h*n;i++) b.data[i]=garbage<T>(r); } c.ev("container.operations"); }
    a=b; if(touch(a)!=touch(b)) c.fail("unusable-after-failure:Interleaved","assignment after failures does not copy"); }
template<class T> static void planar_history(Ctx& c) { Rng& r=c.r; typedef Planar<Gray<T>> P; P a(sz(r),sz(r),(uint32_t)r.range(0,4)),b(sz(r),sz(r),(uint32_t)r.range(0,4));
    for(int k=0;k<12;k++) { uint32_t w=sz(r),h=sz(r),n=(uint32_t)r.range(0,4); u64 before=touch(b); switch(r.range(0,5)) { case 0: attempt(c,[&]{ a.reshape(w,h); }); break; case 1: attempt(c,[&]{ a=b; }); break; case 2: attempt(c,[&]{ P q(b); q.reshape(w,h); }); break; case 3: attempt(c,[&]{ a.setTo(b); }); break; case 4: attempt(c,[&]{ a.setNumberOfBands(n); }); break; default: attempt(c,[&]{ P q(w,h,n); q=a; }); }
        touch(a); if(touch(b)!=before) c.fail("source-modified","a failing operation changed its source"); if(r.chance(.2)) { b.reshape(w,h); b.setNumberOfBands(n); } c.ev("container.operations"); }
    a.reshape(1,1); a.reshape(2,2); a=b; if(touch(a)!=touch(b)) c.fail("unusable-after-failure:Planar","assignment after failures does not copy"); }
template<class T> static void array_history(Ctx& c) { Rng& r=c.r; GrowArray<T> a(sz(r)),b(sz(r)); PackedSet<T> s((uint32_t)r.range(1,9)); std::vector<std::vector<T>> m; Kernel1D<T> k1(3); Kernel2D<T> k2(3);
    for(int k=0;k<25;k++) { uint32_t n=sz(r); switch(r.range(0,10)) { case 0: attempt(c,[&]{ a.resize(n); }); break; case 10: { PackedSet<T> o((uint32_t)r.range(1,9)); for(uint32_t q=0;q<n%20;q++) o.push_tail(T(1)); bool cp=r.chance(.5); attempt(c,[&]{ if(cp) { PackedSet<T> q(s); if(q.number_of_sets()!=m.size()) c.fail("half-done:PackedSet","a copy has %u of %zu sets",q.number_of_sets(),m.size()); } else o=s; }); for(uint32_t q=0;q<3;q++) o.push_tail(T(2)); break; } case 1: attempt(c,[&]{ a.grow_array(n); }); break; case 2: attempt(c,[&]{ a=b; }); break; case 3: attempt(c,[&]{ GrowArray<T> q(b); q.resize(n); }); break; case 4: attempt(c,[&]{ a.setTo({T(1),T(2),T(3),T(4),T(5)}); }); break;
            case 5: { Kernel1D<T> q(n+1); Kernel2D<T> z(n%7+1); for(auto p:{&q.data,&z.data}) p->fill(T(3)); int h=(int)r.range(0,3); attempt(c,[&]{ if(h==0) k1=q; else if(h==1) k2=z; else if(h==2) k1.reshape(n+1,n/2); else k2.reshape(n%7+1,n%7/2); }); if(k1.data.size!=k1.width||k1.offset>=k1.width||k2.data.size!=k2.width*k2.width||k2.offset>=k2.width) c.fail("half-done:Kernel","after a failed allocation a kernel says it has width %u with %u elements, the other one %u with %u",k1.width,k1.data.size,k2.width,k2.data.size); T t=T(0); for(uint32_t i=0;i<k1.width;i++) t+=k1.data[i]; for(uint32_t i=0;i<k2.width;i++) t+=k2.at(i,i); volatile T sink=t; (void)sink; if(r.chance(.2)) { k1=Kernel1D<T>(2); k2=Kernel2D<T>(2); } break; }
            case 6: { u64 sets=s.number_of_sets(); if(attempt(c,[&]{ s.start_new_set(); })) m.push_back(std::vector<T>()); else if(s.number_of_sets()!=sets) c.fail("half-done:PackedSet","a failed start_new_set changed the number of sets"); break; }
            default: { if(m.empty()) break; T v=garbage<T>(r); if(attempt(c,[&]{ s.push_tail(v); })) m.back().push_back(v); } }
        for(uint32_t i=0;i<a.size;i++) if(a[i]!=a[i]) break; c.ev("container.operations");
        if(s.number_of_sets()!=m.size()) c.fail("unusable-after-failure:PackedSet","%u sets, expected %zu",s.number_of_sets(),m.size()); }
    for(uint32_t i=0;i<m.size();i++) { std::vector<T> v; s.load_set(i,v); if(v.size()!=m[i].size()||(v.size()&&memcmp(v.data(),m[i].data(),v.size()*sizeof(T)))) c.fail("unusable-after-failure:PackedSet","set %u differs from what was stored",i); }
    for(uint32_t i=0;i<b.size;i++) b[i]=(T)i; a=b; if(a.size!=b.size||(b.size&&memcmp(a.data,b.data,b.size*sizeof(T)))) c.fail("unusable-after-failure:GrowArray","assignment after failures does not copy"); }
static void containers(Ctx& c) { Rng& r=c.r; u64 s=r.next(); int kind=(int)r.range(0,10); c.note("container faults, kind %d",kind); c.hash(hcomb(s,(u64)kind)); c.state((u64)kind); c.r=Rng(s); track_reset(); c.ev("containers");
    { Track t; switch(kind) { case 0: gray_history<U8>(c); break; case 1: gray_history<F32>(c); break; case 2: gray_history<S32>(c); break; case 3: inter_history<U8>(c); break; case 4: inter_history<F64>(c); break; case 5: planar_history<U8>(c); break; case 6: planar_history<F32>(c); break; case 7: array_history<S32>(c); break; case 8: array_history<F32>(c); break; case 9: array_history<int64_t>(c); break; default: gray_history<U16>(c); } }
    no_live(c,"containers"); c.nontrivial(); }
// larger buffers are kept when smaller shapes are requested
static void capacity(Ctx& c) { Rng& r=c.r; c.note("capacity"); c.hash(r.next()); Gray<S16> g(sz(r),sz(r)); Interleaved<U8> q(sz(r),sz(r),2); GrowArray<F32> a(sz(r)); u64 cg=(u64)g.width*g.height,cq=(u64)q.width*q.height*2,ca=a.size; std::vector<std::unique_ptr<Gray<S16>>> srcs; 
    for(int k=0;k<20;k++) { uint32_t w=sz(r),h=sz(r),n=(uint32_t)r.range(1,4); const void *pg=g.data,*pq=q.data,*pa=a.data; Gray<S16> sg(w,h); Interleaved<U8> sq(w,h,n); GrowArray<F32> sa(w*h);
        switch(r.range(0,2)) { case 0: g.reshape(w,h); break; case 1: g.copy(sg); break; default: g=sg; } if((u64)w*h<=cg&&g.data!=pg) c.fail("reallocated:Gray","an image whose array holds %llu pixels was reallocated for %ux%u",(unsigned long long)cg,w,h); cg=std::max(cg,(u64)w*h);
        switch(r.range(0,2)) { case 0: q.reshape(w,h,n); break; case 1: q.setTo(sq); break; default: q=sq; } if((u64)w*h*n<=cq&&q.data!=pq) c.fail("reallocated:Interleaved","an image whose array holds %llu elements was reallocated for %ux%ux%u",(unsigned long long)cq,w,h,n); cq=std::max(cq,(u64)w*h*n);
        switch(r.range(0,2)) { case 0: a.resize(w*h); break; case 1: a.grow_array(w*h); break; default: a=sa; } if((u64)w*h<=ca&&a.data!=pa) c.fail("reallocated:GrowArray","an array for %llu elements was reallocated for %u",(unsigned long long)ca,w*h); ca=std::max(ca,(u64)w*h); c.ev("capacity.checked"); }
    c.nontrivial(); }
void run_case(Ctx& c) { warm(); switch(c.idx%8) { case 0: case 1: case 2: case 3: cycles(c); break; case 4: case 5: faults(c); break; case 6: containers(c); break; default: capacity(c); } }
}
