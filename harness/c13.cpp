// C13: image containers. A model of shared pixel buffers is compared with every live image after each operation.
#include "img.hpp"
namespace vh {
void setup_run() {}
template<class T> T px(Rng& r) { return garbage<T>(r); }
template<class T> bool eqv(T a, T b) { return memcmp(&a,&b,sizeof(T))==0; }
// ---- one interface over the three containers
template<class T_> struct GrayA { typedef T_ T; typedef Gray<T> I; static const bool views=true, fixed1=true; static const char* name() { return "gray"; }
    static I* make(uint32_t w,uint32_t h,uint32_t) { return new I(w,h); } static T& at(const I& i,uint32_t x,uint32_t y,uint32_t) { return i.at(x,y); } static T& unsafe(const I& i,uint32_t x,uint32_t y,uint32_t) { return i.unsafe_at(x,y); } static T& idx(const I& i,uint32_t x,uint32_t y,uint32_t) { return i.data[i.index_of(x,y)]; }
    static uint32_t bands(const I&) { return 1; } static void setBands(I&,uint32_t) {} static void reshape3(I& i,uint32_t w,uint32_t h,uint32_t) { i.reshape(w,h); } static void copy(I& d,const I& s) { d.copy(s); }
    static I* wrap(T* d,uint32_t n,uint32_t w,uint32_t h,uint32_t,uint32_t o,uint32_t s) { return new I(d,n,w,h,o,s); } static I* sub(I& i,uint32_t a,uint32_t b,uint32_t c,uint32_t d) { return new I(i.makeSubimage(a,b,c,d)); } static I subv(I& i,uint32_t a,uint32_t b,uint32_t c,uint32_t d) { return i.makeSubimage(a,b,c,d); } };
template<class T_> struct InterA { typedef T_ T; typedef Interleaved<T> I; static const bool views=true, fixed1=false; static const char* name() { return "interleaved"; }
    static I* make(uint32_t w,uint32_t h,uint32_t b) { return new I(w,h,b); } static T& at(const I& i,uint32_t x,uint32_t y,uint32_t b) { return i.at(x,y,b); } static T& unsafe(const I& i,uint32_t x,uint32_t y,uint32_t b) { return i.unsafe_at(x,y,b); } static T& idx(const I& i,uint32_t x,uint32_t y,uint32_t b) { return i.data[i.index_of(x,y,b)]; }
    static uint32_t bands(const I& i) { return i.num_bands; } static void setBands(I& i,uint32_t b) { i.setNumberOfBands(b); } static void reshape3(I& i,uint32_t w,uint32_t h,uint32_t b) { i.reshape(w,h,b); } static void copy(I& d,const I& s) { d.setTo(s); }
    static I* wrap(T* d,uint32_t n,uint32_t w,uint32_t h,uint32_t b,uint32_t o,uint32_t s) { return new I(d,n,w,h,b,o,s); } static I* sub(I& i,uint32_t a,uint32_t b,uint32_t c,uint32_t d) { return new I(i.makeSubimage(a,b,c,d)); } static I subv(I& i,uint32_t a,uint32_t b,uint32_t c,uint32_t d) { return i.makeSubimage(a,b,c,d); } };
template<class T_> struct PlanarA { typedef T_ T; typedef Planar<Gray<T>> I; static const bool views=false, fixed1=false; static const char* name() { return "planar"; }
    static I* make(uint32_t w,uint32_t h,uint32_t b) { return new I(w,h,b); } static T& at(const I& i,uint32_t x,uint32_t y,uint32_t b) { return i.at(x,y,b); } static T& unsafe(const I& i,uint32_t x,uint32_t y,uint32_t b) { return i.getBand(b).unsafe_at(x,y); } static T& idx(const I& i,uint32_t x,uint32_t y,uint32_t b) { return i.bands[b]->at(x,y); }
    static uint32_t bands(const I& i) { return i.num_bands; } static void setBands(I& i,uint32_t b) { i.setNumberOfBands(b); } static void reshape3(I& i,uint32_t w,uint32_t h,uint32_t b) { i.reshape(w,h); i.setNumberOfBands(b); } static void copy(I& d,const I& s) { d.setTo(s); }
    static I* wrap(T*,uint32_t,uint32_t,uint32_t,uint32_t,uint32_t,uint32_t) { return nullptr; } static I* sub(I&,uint32_t,uint32_t,uint32_t,uint32_t) { return nullptr; } static I& subv(I& i,uint32_t,uint32_t,uint32_t,uint32_t) { return i; } };

template<class A> struct World {
    typedef typename A::T T; typedef typename A::I I;
    struct Buf { std::vector<T> cell; int id; };
    struct Img1 { std::unique_ptr<I> im; std::shared_ptr<Buf> buf; std::shared_ptr<std::vector<T>> ext; bool view=false; uint32_t w=0,h=0,b=0,off=0,stride=0; };
    Ctx& c; Rng& r; std::vector<std::unique_ptr<Img1>> s; std::string trace; int ids=0; bool bigx=false;
    World(Ctx& c_): c(c_), r(c_.r) {}
    void log(const char* f, ...) __attribute__((format(printf,2,3))) { Untrack u; char b[200]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); trace+=b; trace+=' '; if(trace.size()>900) trace.erase(0,trace.size()-900); set_phase(trace); }
    [[noreturn]] void fail(const char* k, const std::string& d) { Untrack u; c.note("%s %s: %s",A::name(),TName<T>::n(),trace.c_str()); c.fail(k,"%s",d.c_str()); }
    size_t pos(const Img1& q,uint32_t x,uint32_t y,uint32_t b) const { return q.off+(size_t)y*q.stride+(size_t)x*q.b+b; }
    void own_layout(Img1& q,uint32_t w,uint32_t h,uint32_t b) { q.w=w;q.h=h;q.b=b;q.off=0;q.stride=w*b;q.view=false;q.ext.reset(); q.buf=std::make_shared<Buf>(); q.buf->id=++ids; q.buf->cell.assign((size_t)w*h*b,T()); }
    void check(size_t k) { Img1& q=*s[k]; I& im=*q.im;
        if(im.width!=q.w||im.height!=q.h||im.getWidth()!=q.w||im.getHeight()!=q.h||im.total_pixels()!=q.w*q.h||A::bands(im)!=q.b) fail("image-shape",strf("image %zu reports %ux%u (getters %ux%u, %u pixels, %u bands), expected %ux%ux%u",k,im.width,im.height,im.getWidth(),im.getHeight(),im.total_pixels(),A::bands(im),q.w,q.h,q.b));
        if(A::views&&im.subimage!=q.view) fail("image-ownership",strf("image %zu subimage=%d, expected %d",k,(int)im.subimage,(int)q.view));
        for(uint32_t y=0;y<q.h;y++) for(uint32_t x=0;x<q.w;x++) for(uint32_t b=0;b<q.b;b++) { T e=q.buf->cell[pos(q,x,y,b)]; T& g=A::at(im,x,y,b); if(!eqv<T>(g,e)) fail("image-pixel",strf("pixel (%u,%u,%u) of image %zu is %s, expected %s",x,y,b,k,sv(g).c_str(),sv(e).c_str())); if(&A::unsafe(im,x,y,b)!=&g||&A::idx(im,x,y,b)!=&g) fail("image-accessors","the accessors address different memory"); }
        if(q.ext) for(size_t i=0;i<q.ext->size();i++) if(!eqv<T>((*q.ext)[i],q.buf->cell[i])) fail("wrapped-memory",strf("element %zu of the wrapped array changed",i)); }
    template<class F> bool refused(F f) { try { f(); } catch(const std::invalid_argument&) { return true; } return false; }
    size_t pick() { return (size_t)r.range(0,s.size()-1); }
    void drop(size_t k) { log("~%zu",k); std::unique_ptr<Img1> d; { Untrack u; d=std::move(s[k]); s.erase(s.begin()+(long)k); } d->im.reset(); if(d->ext) for(size_t i=0;i<d->ext->size();i++) if(!eqv<T>((*d->ext)[i],d->buf->cell[i])) fail("wrapped-memory",strf("element %zu of the wrapped array changed on destruction",i)); Untrack u; d.reset(); c.ev("destroyed"); }
    // views onto an owner's pixels end before the owner is changed (documented responsibility of the caller)
    void end_views(const Img1* q) { std::shared_ptr<Buf> b; { Untrack u; b=q->buf; } for(size_t k=s.size();k-->0;) if(s[k].get()!=q&&s[k]->buf==b&&s[k]->view) { drop(k); c.ev("views.ended"); } Untrack u; b.reset(); }
    size_t index(const Img1* q) { for(size_t k=0;k<s.size();k++) if(s[k].get()==q) return k; abort(); }
    void refill(Img1& q) { for(uint32_t y=0;y<q.h;y++) for(uint32_t x=0;x<q.w;x++) for(uint32_t b=0;b<q.b;b++) { T v=px<T>(r); q.buf->cell[pos(q,x,y,b)]=v; if(r.chance(.5)) A::at(*q.im,x,y,b)=v; else A::unsafe(*q.im,x,y,b)=v; } }
    bool big=false; int along=0; // one axis past 8 or 16 bits, the other small
    uint32_t dim() { if(big) { static const uint32_t v[]={255,256,257,300,65535,65536,65537}; along^=1; if(along) bigx=r.chance(.5); bool mine=bigx==(along==1); if(!mine||r.chance(.2)) return (uint32_t)r.range(1,3); uint32_t n=r.pick(v); c.ev(n>65535?"huge.images":"wide.images"); return n; } return (uint32_t)(r.chance(.1)?0:r.range(1,r.chance(.2)?14:6)); } uint32_t nb() { return A::fixed1?1:(uint32_t)r.range(1,4); }
    Img1& add(I* im) { Untrack u; std::unique_ptr<Img1> q(new Img1()); q->im.reset(im); s.push_back(std::move(q)); return *s.back(); }
    void create() {
        int k=(int)r.range(0,A::views?4:2);
        if(k<=1) { uint32_t w=dim(),h=dim(),b=nb(); log("new(%u,%u,%u)",w,h,b); Img1& q=add(A::make(w,h,b)); { Untrack u; own_layout(q,w,h,b); } check(s.size()-1); if(r.chance(.7)) refill(q); c.ev("created"); }
        else if(k==2) { log("new()"); Img1& q=add(new I()); Untrack u; own_layout(q,0,0,A::fixed1?1:0); c.ev("created.empty"); }
        else { uint32_t w=dim(),h=dim(),b=nb(),o=(uint32_t)r.range(0,5),st=w*b+(uint32_t)r.range(0,5); size_t n=o+(size_t)h*st; log("wrap(%u,%u,%u,%u,%u)",w,h,b,o,st); std::shared_ptr<std::vector<T>> e; { Untrack u; e=std::make_shared<std::vector<T>>(n); e->reserve(n+1); for(auto&v:*e) v=px<T>(r); } Img1& q=add(A::wrap(e->data(),(uint32_t)n,w,h,b,o,st)); Untrack u; q.w=w;q.h=h;q.b=b;q.off=o;q.stride=st;q.view=true; q.buf=std::make_shared<Buf>(); q.buf->cell=*e; q.ext=e; c.ev("wrapped"); } }
    void take_pixels(Img1& d, const Img1& from) { for(uint32_t y=0;y<d.h;y++) for(uint32_t x=0;x<d.w;x++) for(uint32_t b=0;b<d.b;b++) d.buf->cell[pos(d,x,y,b)]=from.buf->cell[pos(from,x,y,b)]; }
    void become_view(Img1& d, const Img1& src, uint32_t x0=0,uint32_t y0=0,uint32_t w=0xFFFFFFFFu,uint32_t h=0) { Untrack u; if(w==0xFFFFFFFFu) { w=src.w;h=src.h; } uint32_t off=(uint32_t)pos(src,x0,y0,0); std::shared_ptr<Buf> b=src.buf; std::shared_ptr<std::vector<T>> e=src.ext; uint32_t nbd=src.b,st=src.stride; d.buf=b; d.ext=e; d.view=true; d.w=w;d.h=h;d.b=nbd;d.off=off;d.stride=st; }
    static I pass(I p) { return p; }
    void step() {
        if(s.empty()||(s.size()<4&&r.chance(.25))) { create(); for(size_t k=0;k<s.size();k++) check(k); return; }
        size_t i=pick(); Img1* q=s[i].get(); bool small=s.size()<7;
        switch(r.range(0,15)) {
            case 0: { uint32_t w=dim(),h=dim(); if(r.chance(.2)) w=q->w; if(r.chance(.2)) h=q->h; if((u64)w*h>400000) h=1; bool same=w==q->w&&h==q->h; log("%zu.reshape(%u,%u)",i,w,h);
                if(q->view&&!same) { if(!refused([&]{ q->im->reshape(w,h); })) fail("view-reshaped","reshaping a view was accepted"); c.ev("view.reshape.refused"); }
                else { if(!same) end_views(q); q->im->reshape(w,h); if(!same) { uint32_t b=q->b; { Untrack u; own_layout(*q,w,h,b); } refill(*q); c.ev("reshaped"); } else c.ev("reshape.same"); } break; }
            case 1: if(!A::fixed1) { uint32_t b=r.chance(.2)?q->b:nb(); bool same=b==q->b; log("%zu.bands(%u)",i,b);
                if(q->view&&!same) { if(!refused([&]{ A::setBands(*q->im,b); })) fail("view-bands","changing the bands of a view was accepted"); }
                else { if(!same) end_views(q); std::vector<T> keep; uint32_t ob=q->b; { Untrack u; keep=q->buf->cell; } A::setBands(*q->im,b); if(!same) { uint32_t w=q->w,h=q->h; { Untrack u; own_layout(*q,w,h,b); }
                        if(!A::views) { // planar: bands that stay keep their pixels, new bands are zero
                            for(uint32_t y=0;y<h;y++) for(uint32_t x=0;x<w;x++) for(uint32_t k=0;k<std::min(b,ob);k++) q->buf->cell[((size_t)y*w+x)*b+k]=keep[((size_t)y*w+x)*ob+k]; }
                        else refill(*q); c.ev("bands.changed"); } Untrack u; keep=std::vector<T>(); } } break;
            case 2: if(!A::fixed1) { uint32_t w=dim(),h=dim(),b=nb(); bool same=w==q->w&&h==q->h&&b==q->b; log("%zu.reshape3(%u,%u,%u)",i,w,h,b); if(q->view&&!same) { if(!refused([&]{ A::reshape3(*q->im,w,h,b); })) fail("view-reshaped","reshaping a view was accepted"); } else { if(!same) end_views(q); A::reshape3(*q->im,w,h,b); if(!same) { { Untrack u; own_layout(*q,w,h,b); } refill(*q); } } } break;
            case 3: case 4: case 5: if(q->w&&q->h&&q->b) { uint32_t x=(uint32_t)r.range(0,q->w-1),y=(uint32_t)r.range(0,q->h-1),b=(uint32_t)r.range(0,q->b-1); T v=px<T>(r); log("%zu.w(%u,%u,%u)",i,x,y,b); if(r.chance(.5)) A::at(*q->im,x,y,b)=v; else A::idx(*q->im,x,y,b)=v; q->buf->cell[pos(*q,x,y,b)]=v; c.ev("written"); if(q->view) c.ev("written.through.view"); } break;
            case 6: case 7: if(A::views&&small) { uint32_t x0=(uint32_t)r.range(0,q->w),x1=(uint32_t)r.range(x0,q->w),y0=(uint32_t)r.range(0,q->h),y1=(uint32_t)r.range(y0,q->h); if(r.chance(.15)) { x0=y0=0;x1=q->w;y1=q->h; } log("sub%zu(%u,%u,%u,%u)",i,x0,y0,x1,y1); I* n=A::sub(*q->im,x0,y0,x1,y1); Img1& d=add(n); become_view(d,*q,x0,y0,x1-x0,y1-y0); c.ev("subimage"); if(q->view) c.ev("subimage.of.view"); } break;
            case 8: if(small) { log("copy%zu",i); Img1& d=add(new I(*q->im)); if(q->view) { become_view(d,*q); c.ev("view.copied"); } else { { Untrack u; own_layout(d,q->w,q->h,q->b); } take_pixels(d,*q); c.ev("copy.constructed"); } } break;
            case 9: case 10: { size_t j=pick(); Img1* o=s[j].get(); log("%zu=%zu",i,j); assign(q,o,[&]{ *q->im=*o->im; }); break; }
            case 11: { size_t j=pick(); Img1* o=s[j].get(); if(o->buf==q->buf) break; bool same=o->w==q->w&&o->h==q->h&&o->b==q->b; log("%zu.copy(%zu)",i,j);
                if(q->view&&!same) { if(!refused([&]{ A::copy(*q->im,*o->im); })) fail("view-copy-shape","copying another shape into a view was accepted"); c.ev("view.copy.refused"); break; }
                if(!same) end_views(q); A::copy(*q->im,*o->im); if(!same) { Untrack u; own_layout(*q,o->w,o->h,o->b); } take_pixels(*q,*o); c.ev("copied"); if(o->view||q->view) c.ev("copied.with.view"); break; }
            case 12: { log("pass%zu",i); { I p=pass(*q->im); if(p.width!=q->w||p.height!=q->h||A::bands(p)!=q->b) fail("by-value-shape","an image passed by value has another shape"); for(uint32_t y=0;y<q->h;y++) for(uint32_t x=0;x<q->w;x++) for(uint32_t b=0;b<q->b;b++) { if(!eqv<T>(A::at(p,x,y,b),q->buf->cell[pos(*q,x,y,b)])) fail("by-value-pixels","an image passed by value has other pixels"); if(!q->view) A::at(p,x,y,b)=px<T>(r); } } c.ev("passed.by.value"); break; }
            case 13: { // out of bounds and illegal rectangles
                uint32_t w=q->w,h=q->h; uint32_t x=w+(uint32_t)r.range(0,2),y=h+(uint32_t)r.range(0,2); if(r.chance(.1)) x=0xFFFFFFFFu; log("%zu.oob",i);
                uint32_t ix=w?(uint32_t)r.range(0,w-1):0, iy=h?(uint32_t)r.range(0,h-1):0;
                if(q->b) { if(!refused([&]{ A::at(*q->im,x,iy,0); })||!refused([&]{ A::at(*q->im,ix,y,0); })) fail("bounds",strf("access outside a %ux%u image accepted",w,h)); if(!A::fixed1&&w&&h&&!refused([&]{ A::at(*q->im,ix,iy,q->b+(uint32_t)r.range(0,2)); })) fail("bounds-band","a band outside accepted"); }
                if(q->im->isInBounds(x,iy)||q->im->isInBounds(ix,y)||(w&&h&&!q->im->isInBounds(ix,iy))) fail("in-bounds",strf("isInBounds is wrong for a %ux%u image",w,h));
                if(A::views) { uint32_t a=(uint32_t)r.range(0,w),b=(uint32_t)r.range(0,h); if(!refused([&]{ std::unique_ptr<I> z(A::sub(*q->im,0,0,w+1,h)); })||!refused([&]{ std::unique_ptr<I> z(A::sub(*q->im,0,0,w,h+1)); })||(a&&!refused([&]{ std::unique_ptr<I> z(A::sub(*q->im,a,0,a-1,h)); }))||(b&&!refused([&]{ std::unique_ptr<I> z(A::sub(*q->im,0,b,w,b-1)); }))) fail("subimage-bounds","an illegal rectangle was accepted"); }
                c.ev("refusals"); break; }
            case 14: if(A::views) { // crop an image to a part of itself
                if(q->w==0||q->h==0) break; uint32_t x0=(uint32_t)r.range(0,q->w-1),x1=(uint32_t)r.range(x0,q->w),y0=(uint32_t)r.range(0,q->h-1),y1=(uint32_t)r.range(y0,q->h); log("%zu=crop(%u,%u,%u,%u)",i,x0,y0,x1,y1);
                if(q->view) { *q->im=A::subv(*q->im,x0,y0,x1,y1); become_view(*q,*q,x0,y0,x1-x0,y1-y0); c.ev("cropped.view"); }
                else { end_views(q); Img1 t; become_view(t,*q,x0,y0,x1-x0,y1-y0); *q->im=A::subv(*q->im,x0,y0,x1,y1); { Untrack u; own_layout(*q,t.w,t.h,t.b); take_pixels(*q,t); } // stays an owner
                    if(q->im->subimage) fail("crop-ownership","an owning image cropped to a part of itself lost its pixels' ownership"); Untrack u; t.buf.reset(); c.ev("cropped.owner"); } } break;
            default: { if(!q->view) end_views(q); drop(index(q)); break; }
        }
        for(size_t k=0;k<s.size();k++) check(k);
    }
    template<class F> void assign(Img1* q, Img1* o, F doit) {
        if(q==o) { doit(); c.ev("self.assigned"); return; }
        if(o->view) { if(!q->view) { // the owner's pixels go away: views on it end first, unless the source itself is one of them
                if(o->buf==q->buf) return; end_views(q); } doit(); become_view(*q,*o); c.ev("assigned.view"); return; }
        bool same=o->w==q->w&&o->h==q->h&&o->b==q->b; if(o->buf==q->buf) return;
        if(q->view&&!same) { if(!refused(doit)) fail("view-assign-shape","assigning another shape to a view was accepted"); c.ev("view.assign.refused"); return; }
        if(!same) end_views(q); doit(); if(!same) { Untrack u; own_layout(*q,o->w,o->h,o->b); } take_pixels(*q,*o); c.ev("assigned"); if(q->view) c.ev("assigned.into.view"); }
    void end() { while(!s.empty()) { size_t k=pick(); if(!s[k]->view) { Img1* q=s[k].get(); end_views(q); k=index(q); } drop(k); for(size_t m=0;m<s.size();m++) check(m); } }
};
template<class A> void world(Ctx& c) {
    int n=(int)c.r.range(4,50); if(c.r.chance(.01)) { n=(int)c.r.range(100,400); c.ev("long.histories"); } bool big=c.r.chance(.0012); if(big) n=(int)c.r.range(3,12); c.hash(c.idx); track_reset(); bool ok=false; { Track t; { World<A> W(c); W.big=big; for(int k=0;k<n;k++) W.step(); Untrack u; for(auto&q:W.s) { c.state(hcomb(hcomb(q->w,q->h),q->b*2+q->view)); c.hash(q->w*31+q->h); } c.note("%s of %s: %s",A::name(),TName<typename A::T>::n(),W.trace.c_str()); Track t2; W.end(); Untrack u2; W.s=decltype(W.s)(); W.trace=std::string(); } ok=true; }
    c.ev("operations",n); AllocStats st=track_stats(); if(ok&&track_available()) { c.ev("leak.checked"); if(st.live_blocks) c.fail("image-leak","%lld bytes in %lld blocks left after destroying every image",(long long)st.live_bytes,(long long)st.live_blocks); }
}
// rows of an initialiser
template<class T> void lists(Ctx& c) {
    Rng& r=c.r; c.note("initialiser lists %s",TName<T>::n()); c.hash(c.idx); T a=px<T>(r),b=px<T>(r),d=px<T>(r),e=px<T>(r),f=px<T>(r),g=px<T>(r); track_reset();
    { Track t; { Gray<T> m({{a,b,d},{e,f,g}}); T ex[6]={a,b,d,e,f,g}; if(m.width!=3||m.height!=2||m.subimage) c.fail("list-shape","a 3x2 list gives %ux%u",m.width,m.height); for(int i=0;i<6;i++) if(!eqv<T>(m.at(i%3,i/3),ex[i])) c.fail("list-pixels","pixel %d differs",i); Gray<T> k({{a},{b},{d}}); if(k.width!=1||k.height!=3||!eqv<T>(k.at(0,2),d)) c.fail("list-shape","a 1x3 list gives %ux%u",k.width,k.height); Gray<T> z(std::initializer_list<std::initializer_list<T>>{}); if(z.width||z.height) c.fail("list-shape","an empty list gives pixels"); }
      int bad=0; try { Gray<T> m({{a,b,d},{e,f}}); } catch(const std::invalid_argument&) { bad++; } try { Gray<T> m({{a,b},{e,f,g}}); } catch(const std::invalid_argument&) { bad++; } try { Gray<T> m({{a,b},{e,f},{}}); } catch(const std::invalid_argument&) { bad++; } if(bad!=3) c.fail("ragged-list","%d of 3 ragged lists refused",bad); c.ev("ragged.refused"); }
    AllocStats st=track_stats(); if(track_available()&&st.live_blocks) c.fail("list-leak","%lld bytes left after initialiser lists",(long long)st.live_bytes);
}
template<class T> void typed(Ctx& c) { switch(c.r.range(0,9)) { case 0: lists<T>(c); break; case 1: case 2: case 3: world<PlanarA<T>>(c); break; case 4: case 5: case 6: world<InterA<T>>(c); break; default: world<GrayA<T>>(c); } }
void run_case(Ctx& c) { c.nontrivial(); switch(c.r.range(0,4)) { case 0: typed<uint8_t>(c); break; case 1: typed<int16_t>(c); break; case 2: typed<int32_t>(c); break; case 3: typed<float>(c); break; default: typed<double>(c); } }
}
