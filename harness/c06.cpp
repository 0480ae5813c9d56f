// C06: labels are the connected components.
#include "contourref.hpp"
namespace vh {
void setup_run() { large().p=0.008; }
static void check_labels(Ctx& c, const Mat<U8>& in, const Mat<S32>& got, const Mat<S32>& want, size_t blobs, size_t reported, bool eight) {
    if(reported!=blobs) c.fail(eight?"blob-count-8":"blob-count-4","%zu blobs reported, the image has %zu: %s",reported,blobs,draw(in).c_str());
    for(uint32_t y=0;y<in.h;y++) for(uint32_t x=0;x<in.w;x++) if(got(x,y)!=want(x,y)) c.fail(eight?"label-8":"label-4","pixel (%u,%u) has label %d, its component is number %d: %s",x,y,got(x,y),want(x,y),draw(in).c_str());
    c.ev("pixels.checked",in.d.size()); c.ev("blobs.checked",blobs); if(blobs>1) c.ev("several.blobs");
}
void run_case(Ctx& c) {
    Rng& r=c.r; const u64 PER=32; LinearContourLabelChang2004 alg(r.chance(.5)?ConnectRule::FOUR:ConnectRule::EIGHT); c.nontrivial();
    u64 i=c.idx%1000000000ull;
    if(i*PER<ENUM_TOTAL) { // part of the complete enumeration of small images, both rules, one finder
        c.note("enumerated small images %llu..",(unsigned long long)(i*PER)); c.hash(i);
        for(u64 k=0;k<PER;k++) { Mat<U8> m; if(!enum_image(i,PER,k,m)) break; Img<U8> b; b.make(r,k%4?OWNER:rand_kind(r),m); b.snapshot(); 
            for(int e=0;e<2;e++) { alg.setConnectRule(e?EIGHT:FOUR); Img<S32> l; make_out(r,l,m.w,m.h,true); alg.process(*b,*l); check_input(c,b,"binary"); check_out(c,l,m.w,m.h,"labels"); ContourRef R=contour_ref(m,e); check_labels(c,m,l.read(),R.labels,R.blobs.size(),alg.contours.size(),e); c.ev("enumerated.small.images"); } }
        return; }
    int n=(int)r.range(1,4); int hk=i%6000==5990?(int)(i/6000%3):-1; if(hk>=0) n=2; uint32_t pw=0,ph=0; Img<S32> l; bool haveL=false;
    for(int k=0;k<n;k++) {
        uint32_t w,h; binary_size(r,w,h); if(k&&r.chance(.5)) { w=pw;h=ph; c.ev("same.size.again"); } if(r.chance(.01)) { if(r.chance(.5)) w=0; else h=0; } pw=w;ph=h;
        bool eight=r.chance(.5); alg.setConnectRule(eight?EIGHT:FOUR); if(alg.getConnectRule()!=(eight?EIGHT:FOUR)) c.fail("rule","rule not set"); int mode=-1; Mat<U8> m; if(hk>=0&&k==0) { m=huge_pattern(r,hk); w=m.w; h=m.h; pw=w; ph=h; mode=30+hk; c.ev(huge_name(hk)); } else m=binary_pattern(r,w,h,&mode);
        // limits must not matter for labels
        if(r.chance(.3)) { alg.minContourSize=(uint32_t)r.range(0,12); alg.maxContourSize=(uint32_t)r.range(0,30); alg.saveInternalContours=r.chance(.5); c.ev("limits.set"); } else { alg.minContourSize=0; alg.maxContourSize=std::numeric_limits<uint32_t>::max(); alg.saveInternalContours=true; }
        Img<U8> b; b.make(r,rand_kind(r),m); b.snapshot(); if(!haveL||r.chance(.5)||l.is_view()) { make_out(r,l,w,h,true); haveL=true; }
        c.note("%s %ux%u mode %d in=%s labels=%s %s",eight?"8":"4",w,h,mode,kname(b.kind),kname(l.kind),k==n-1&&m.d.size()<200?draw(m).c_str():""); c.hash(m.hash()+eight);
        l.snapshot(); alg.process(*b,*l); check_input(c,b,"binary"); check_out(c,l,w,h,"labels");
        ContourRef R=contour_ref(m,eight); check_labels(c,m,l.read(),R.labels,R.blobs.size(),alg.contours.size(),eight);
        for(size_t q=0;q<alg.contours.size();q++) if(alg.contours[q].id!=q+1) c.fail("blob-id","blob %zu has id %u",q,alg.contours[q].id);
        c.ev(eight?"rule.8":"rule.4"); if(R.holes) c.ev("with.holes"); c.state(hcomb(hcomb(mode,eight),hcomb(std::min<size_t>(R.blobs.size(),40),std::min<size_t>(R.holes,40))));
    }
}
}
