// C16: binary logic and morphology.
#include "contourref.hpp"
#include <boofcv/binary_ops.h>
namespace vh {
void setup_run() { large().p=0.002; }
typedef Mat<uint8_t> B;
static B mk(Rng& r, uint32_t w, uint32_t h) { B m(w,h); double d=r.pick({0.05,0.3,0.5,0.8,0.97}); int k=(int)r.range(0,5); for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) m(x,y)= k==0? 1 : k==1? 0 : k==2? (x+y)&1 : (uint8_t)r.chance(d); if(k==0&&w&&h&&r.chance(.7)) m((i64)r.range(0,w-1),(i64)r.range(0,h-1))=0; if(k==1&&w&&h&&r.chance(.7)) m((i64)r.range(0,w-1),(i64)r.range(0,h-1))=1; return m; }
static int at0(const B& m,i64 x,i64 y) { return x<0||y<0||x>=m.w||y>=m.h?0:m(x,y); }
static B morph(const B& m,bool er) { B o(m.w,m.h); for(i64 y=0;y<m.h;y++) for(i64 x=0;x<m.w;x++) { int s=m(x,y)+at0(m,x-1,y)+at0(m,x+1,y)+at0(m,x,y-1)+at0(m,x,y+1); o(x,y)=er?s==5:s>0; } return o; }
static B logic(const B& a,const B& b,bool an) { B o(a.w,a.h); for(size_t i=0;i<a.d.size();i++) o.d[i]=an?(a.d[i]&b.d[i]):(a.d[i]|b.d[i]); return o; }
static void cmp(Ctx& c,const char* what,const B& g,const B& e) { for(i64 y=0;y<e.h;y++) for(i64 x=0;x<e.w;x++) if(g(x,y)!=e(x,y)) c.fail(what,"pixel (%lld,%lld) of %ux%u is %d, expected %d",(long long)x,(long long)y,e.w,e.h,g(x,y),e(x,y)); }
static B run1(Ctx& c,const B& a,bool er,bool plain=false) { Img<U8> in,out; in.make(c.r,plain?OWNER:rand_kind(c.r),a); in.snapshot(); make_out(c.r,out,a.w,a.h,true); if(er) BinaryImageOps::erode4(*in,*out); else BinaryImageOps::dilate4(*in,*out); check_input(c,in,"morphology"); check_out(c,out,a.w,a.h,"morphology"); return out.read(); }
static B run2(Ctx& c,const B& a,const B& b,bool an) { Img<U8> A,Bm,out; A.make(c.r,rand_kind(c.r),a); A.snapshot(); int al=(int)c.r.range(0,5);
    if(al==0) { Bm.make(c.r,rand_kind(c.r),b); Bm.snapshot(); if(an) BinaryImageOps::logicAnd(*A,*Bm,*A); else BinaryImageOps::logicOr(*A,*Bm,*A); check_input(c,Bm,"logic"); check_out(c,A,a.w,a.h,"logic"); c.ev("output.is.input"); return A.read(); }
    if(al==1) { Bm.make(c.r,rand_kind(c.r),b); Bm.snapshot(); if(an) BinaryImageOps::logicAnd(*A,*Bm,*Bm); else BinaryImageOps::logicOr(*A,*Bm,*Bm); check_input(c,A,"logic"); check_out(c,Bm,a.w,a.h,"logic"); c.ev("output.is.input"); return Bm.read(); }
    if(al==2&&a==b) { if(an) BinaryImageOps::logicAnd(*A,*A,*A); else BinaryImageOps::logicOr(*A,*A,*A); c.ev("output.is.both.inputs"); return A.read(); }
    Bm.make(c.r,rand_kind(c.r),b); Bm.snapshot(); make_out(c.r,out,a.w,a.h,true); if(an) BinaryImageOps::logicAnd(*A,*Bm,*out); else BinaryImageOps::logicOr(*A,*Bm,*out); check_input(c,A,"logic"); check_input(c,Bm,"logic"); check_out(c,out,a.w,a.h,"logic"); return out.read(); }
static B compl_(const B& a) { B o=a; for(auto&v:o.d) v=!v; return o; }
static void subset(Ctx& c,const char* what,const B& a,const B& b,bool inner) { for(i64 y=0;y<a.h;y++) for(i64 x=0;x<a.w;x++) if(!(inner&&(x==0||y==0||x==a.w-1||y==a.h-1))&&a(x,y)>b(x,y)) c.fail(what,"pixel (%lld,%lld)",(long long)x,(long long)y); }
static const uint32_t shapes[][2]={{0,0},{0,3},{3,0},{1,1},{1,2},{2,1},{1,5},{5,1},{2,2},{2,3},{3,2},{3,3},{4,3},{3,4},{2,6},{6,2}};
void run_case(Ctx& c) {
    c.nontrivial(); Rng& r=c.r; 
    { u64 k=c.idx%1000000000ULL; u64 total=0; for(auto&s:shapes) { u64 n=1ULL<<(s[0]*s[1]); if(k*16<total+n&&(k+1)*16>total) { for(u64 q=k*16;q<(k+1)*16;q++) if(q>=total&&q<total+n) { B m(s[0],s[1]); for(size_t i=0;i<m.d.size();i++) m.d[i]=((q-total)>>i)&1; c.note("enumerated %ux%u image %llu",s[0],s[1],(unsigned long long)(q-total)); c.hash(m.hash()); for(int e=0;e<2;e++) cmp(c,e?"erode":"dilate",run1(c,m,e,true),morph(m,e)); c.ev("enumerated.small.images"); } } total+=n; } }
    uint32_t w,h; rand_size(r,w,h,50,r.chance(.1)?0:1); if(r.chance(.002)) { w=(uint32_t)r.range(60000,70000); h=(uint32_t)r.range(1,3); if(r.chance(.5)) std::swap(w,h); c.ev("elongated.large"); }
    B a=mk(r,w,h),b=r.chance(.15)?a:mk(r,w,h); c.note("%ux%u",w,h); c.hash(a.hash()); c.hash(b.hash());
    switch(r.range(0,3)) {
        case 0: { cmp(c,"and",run2(c,a,b,true),logic(a,b,true)); cmp(c,"or",run2(c,a,b,false),logic(a,b,false)); c.ev("logic"); break; }
        case 1: { B e=run1(c,a,true),d=run1(c,a,false); cmp(c,"erode",e,morph(a,true)); cmp(c,"dilate",d,morph(a,false)); subset(c,"erosion-in-image",e,a,false); subset(c,"image-in-dilation",a,d,false); c.ev("morphology"); break; }
        case 2: { B e=run1(c,compl_(a),true),d=compl_(run1(c,a,false)); subset(c,"duality",e,d,true); subset(c,"duality",d,e,true); B u=run2(c,a,b,false); subset(c,"monotone-erode",run1(c,a,true),run1(c,u,true),false); subset(c,"monotone-dilate",run1(c,a,false),run1(c,u,false),false); c.ev("duality.monotone"); break; }
        default: { cmp(c,"dilate-of-or",run1(c,run2(c,a,b,false),false),run2(c,run1(c,a,false),run1(c,b,false),false)); cmp(c,"erode-of-and",run1(c,run2(c,a,b,true),true),run2(c,run1(c,a,true),run1(c,b,true),true)); c.ev("distributive"); if(w<40&&h<40) { B t=a; int n=0; for(int i=0;i<45;i++) { B q=run1(c,t,true); n++; if(q==t) break; t=q; } for(auto v:t.d) if(v) c.fail("repeated-erosion","an image does not erode to nothing in %d steps",n); c.ev("repeated.erosion"); } }
    }
    if(w<3||h<3) c.ev("no.inner.region"); if(w==0||h==0) c.ev("empty");
}
}
