// A registry of every public image operation, so that cross-cutting monitors (storage layouts, object reuse, threads,
// memory) can run any of them without knowing which it is.
#pragma once
#include "convref.hpp"

namespace vh {
/** calls f(t) if t has the members f uses: internals which are looked at but not required to exist */
template<class F,class T> auto maybe(F f, T& t, int) -> decltype((void)f(t)) { f(t); }
template<class F,class T> void maybe(F, T&, long) {}
struct Pixels;
// one image (gray or interleaved) plus its surroundings; `image` points at the library's object
struct Holder {
    void* image=nullptr; Kind kind=OWNER;
    virtual ~Holder() {}
    virtual void snapshot()=0;
    virtual const char* changed() const=0;                 // inputs: anything at all changed since snapshot
    virtual const char* outside() const=0;                 // outputs: re-seated view, or pixels around it changed
    virtual void bytes(std::string& o) const=0;            // shape and pixels
    virtual const void* ptr() const=0;                     // the pixel array
    virtual void reshape(uint32_t w, uint32_t h, uint32_t b)=0;
    virtual void load(const Pixels& p)=0;                  // the shape must match
    virtual void scramble(Rng& r)=0;
    virtual void shape(uint32_t& w, uint32_t& h, uint32_t& b) const=0;
    bool view() const { return kind==WRAPPED||kind==SUB||kind==SUBSUB; }
};
// type of image, able to build holders
struct IType {
    virtual ~IType() {}
    virtual Holder* make(Rng& r, Kind k, uint32_t w, uint32_t h, uint32_t b) const=0;
    virtual Holder* parent(Rng& r, uint32_t w, uint32_t h, uint32_t b) const=0;      // a plain owner
    virtual Holder* tile(Holder* parent, uint32_t x, uint32_t y, uint32_t w, uint32_t h) const=0;
    virtual std::string name() const=0;
};
// content of an image
struct Pixels { uint32_t w=0,h=0,b=1; const IType* type=nullptr; virtual ~Pixels() {} virtual u64 hash() const=0; Holder* make(Rng& r, Kind k) const { Holder* o=type->make(r,k,w,h,b); o->load(*this); return o; } };
typedef std::shared_ptr<const Pixels> PixelsP;

struct Env { std::vector<Holder*> in,out,ws; void* obj=nullptr; void* shared=nullptr; std::string text; };
struct OutSpec { const IType* type; uint32_t w,h,b; bool reshapes; PixelsP init; };
typedef std::shared_ptr<void> Any;
// how objects of a type are copied
struct Copying { std::function<Any(const void*)> copy; std::function<void(void*,const void*)> assign; };
template<class T> void copying_c(Copying& k, std::true_type) { k.copy=[](const void* o)->Any{ return std::make_shared<T>(*(const T*)o); }; }
template<class T> void copying_a(Copying& k, std::true_type) { k.assign=[](void* d, const void* o) { *(T*)d=*(const T*)o; }; }
template<class T> void copying_c(Copying&, std::false_type) {}
template<class T> void copying_a(Copying&, std::false_type) {}
template<class T> Copying copying() { Copying k; copying_c<T>(k,std::is_copy_constructible<T>()); copying_a<T>(k,std::is_copy_assignable<T>()); return k; }

struct Op {
    std::string family, desc; bool bad=false;              // bad: violates a documented precondition, must be refused
    std::vector<PixelsP> in; std::vector<OutSpec> out, ws;
    std::string obj_key; std::function<Any()> make_obj; Copying copying;   // operations of one family and key can share the object
    std::function<Any(Env&)> bind;                         // what may be shared between threads besides inputs (borders)
    std::function<void(Env&)> run;
    std::function<void(Env&, std::vector<const void*>&)> buffers;   // storage the object keeps
    u64 sig=0;
};
struct GenOpt { uint32_t big=28; uint32_t fw=0,fh=0; bool fixed=false; bool bad=false; };
struct Family { std::string name; bool object; bool can_fail; bool empty_ok; std::function<Op(Rng&,const GenOpt&)> gen; };
const std::vector<Family>& families();
struct FamilyReg { explicit FamilyReg(void (*f)(std::vector<Family>&)); };

inline void op_size(Rng& r, const GenOpt& o, uint32_t& w, uint32_t& h, bool empty_ok, uint32_t mn=1) {
    if(o.fixed) { w=std::max(o.fw,mn); h=std::max(o.fh,mn); return; }
    rand_size(r,w,h,o.big,mn); if(empty_ok&&r.chance(.03)) { if(r.chance(.6)) w=0; if(w||r.chance(.5)) h=0; } }

// ------------------------------------------------------------------ gray
template<class T> struct GPixels : Pixels { Mat<T> m; u64 hash() const override { return m.hash(); } };
template<class T> struct GHolder : Holder {
    Img<T> i; std::unique_ptr<Gray<T>> t;                   // t: a tile of somebody else's parent
    Gray<T>& g() const { return *(Gray<T>*)image; }
    void sync() { image=i.g.get(); kind=i.kind; }
    void snapshot() override { if(!t) i.snapshot(); }
    const char* changed() const override { return t?nullptr:i.changed(); }
    const char* outside() const override { return t?nullptr:i.outside_changed(); }
    void bytes(std::string& o) const override { Gray<T>& q=g(); o+=strf("[%ux%u]",q.width,q.height); for(uint32_t y=0;y<q.height;y++) o.append((const char*)(q.data+q.offset+(size_t)y*q.stride),sizeof(T)*q.width); }
    const void* ptr() const override { return g().data; }
    void reshape(uint32_t w, uint32_t h, uint32_t) override { g().reshape(w,h); if(!t) { i.w=w; i.h=h; } }
    void load(const Pixels& p) override { const Mat<T>& m=((const GPixels<T>&)p).m; Gray<T>& q=g(); for(uint32_t y=0;y<m.h;y++) if(m.w) memcpy(q.data+q.offset+(size_t)y*q.stride,&m.d[(size_t)y*m.w],sizeof(T)*m.w); }
    void scramble(Rng& r) override { Gray<T>& q=g(); for(uint32_t y=0;y<q.height;y++) for(uint32_t x=0;x<q.width;x++) q.data[q.offset+(size_t)y*q.stride+x]=garbage<T>(r); }
    void shape(uint32_t& w, uint32_t& h, uint32_t& b) const override { w=g().width; h=g().height; b=1; }
};
template<class T> struct GType : IType {
    static const GType* get() { static GType t; return &t; }
    Holder* make(Rng& r, Kind k, uint32_t w, uint32_t h, uint32_t) const override { GHolder<T>* o=new GHolder<T>; o->i.make(r,k,w,h); o->sync(); return o; }
    Holder* parent(Rng& r, uint32_t w, uint32_t h, uint32_t) const override { return make(r,OWNER,w,h,1); }
    Holder* tile(Holder* p, uint32_t x, uint32_t y, uint32_t w, uint32_t h) const override { GHolder<T>* o=new GHolder<T>; o->t.reset(new Gray<T>(((Gray<T>*)p->image)->makeSubimage(x,y,x+w,y+h))); o->image=o->t.get(); o->kind=SUB; return o; }
    std::string name() const override { return TName<T>::n(); }
};
template<class T> Gray<T>& G(Holder* h) { return *(Gray<T>*)h->image; }
template<class T> PixelsP gray(Mat<T> m) { auto p=std::make_shared<GPixels<T>>(); p->w=m.w; p->h=m.h; p->type=GType<T>::get(); p->m=std::move(m); return p; }
template<class T> OutSpec gout(uint32_t w, uint32_t h, bool reshapes=true, PixelsP init=PixelsP()) { OutSpec s; s.type=GType<T>::get(); s.w=w; s.h=h; s.b=1; s.reshapes=reshapes&&!init; s.init=init; return s; }

// ------------------------------------------------------------------ interleaved
template<class T> struct IPixels : Pixels { std::vector<T> d; u64 hash() const override { return hcomb(hbytes(d.data(),d.size()*sizeof(T)),hcomb(w,b)); } };
template<class T> struct IHolder : Holder {
    std::vector<T> buf; std::unique_ptr<Interleaved<T>> parent,im; std::vector<T> snap; T* sd=nullptr; uint32_t so=0,ss=0,sw=0,sh=0,sb=0; bool tile=false;
    Interleaved<T>& q() const { return *im; }
    const T* base() const { return kind==WRAPPED?buf.data():parent?parent->data:im->data; }
    size_t blen() const { return kind==WRAPPED?buf.size():parent?(size_t)parent->width*parent->height*parent->num_bands:(size_t)im->width*im->height*im->num_bands; }
    void snapshot() override { if(tile) return; snap.assign(base(),base()+blen()); sd=im->data; so=im->offset; ss=im->stride; sw=im->width; sh=im->height; sb=im->num_bands; }
    bool same() const { return im->data==sd&&im->offset==so&&im->stride==ss&&im->width==sw&&im->height==sh&&im->num_bands==sb; }
    const char* changed() const override { if(tile) return nullptr; if(!same()) return "shape or storage fields changed"; if(snap.size()&&memcmp(snap.data(),base(),snap.size()*sizeof(T))) return "pixels changed"; return nullptr; }
    const char* outside() const override { if(tile||!view()) return nullptr; if(!same()||!im->subimage) return "output view was re-seated"; std::vector<char> in(blen(),0); for(uint32_t y=0;y<sh;y++) for(size_t x=0;x<(size_t)sw*sb;x++) in[so+(size_t)y*ss+x]=1; for(size_t k=0;k<in.size();k++) if(!in[k]&&memcmp(&base()[k],&snap[k],sizeof(T))) return "pixel outside the output view changed"; return nullptr; }
    void bytes(std::string& o) const override { o+=strf("[%ux%ux%u]",im->width,im->height,im->num_bands); for(uint32_t y=0;y<im->height;y++) o.append((const char*)(im->data+im->offset+(size_t)y*im->stride),sizeof(T)*im->width*im->num_bands); }
    const void* ptr() const override { return im->data; }
    void reshape(uint32_t w, uint32_t h, uint32_t b) override { im->reshape(w,h,b); }
    void load(const Pixels& p) override { const std::vector<T>& d=((const IPixels<T>&)p).d; size_t n=(size_t)p.w*p.b; for(uint32_t y=0;y<p.h;y++) if(n) memcpy(im->data+im->offset+(size_t)y*im->stride,&d[y*n],n*sizeof(T)); }
    void scramble(Rng& r) override { for(uint32_t y=0;y<im->height;y++) for(uint32_t x=0;x<im->width*im->num_bands;x++) im->data[im->offset+(size_t)y*im->stride+x]=garbage<T>(r); }
    void shape(uint32_t& w, uint32_t& h, uint32_t& b) const override { w=im->width; h=im->height; b=im->num_bands; }
};
template<class T> struct IlType : IType {
    static const IlType* get() { static IlType t; return &t; }
    Holder* make(Rng& r, Kind k, uint32_t w, uint32_t h, uint32_t b) const override {
        IHolder<T>* o=new IHolder<T>; o->kind=k;
        switch(k) { case OWNER: o->im.reset(new Interleaved<T>(w,h,b)); break;
            case REUSED: o->im.reset(new Interleaved<T>(w+(uint32_t)r.range(0,4),h+(uint32_t)r.range(0,4),b+(uint32_t)r.range(0,2))); o->im->reshape(w,h,b); break;
            case WRAPPED: { uint32_t off=(uint32_t)r.range(0,7),s=w*b+(uint32_t)r.range(0,7); size_t n=h?off+(size_t)(h-1)*s+w*b:off; o->buf.reserve(n+1); o->buf.resize(n); o->im.reset(new Interleaved<T>(o->buf.data(),(uint32_t)n,w,h,b,off,s)); break; }
            default: { uint32_t l=(uint32_t)r.range(0,4),t=(uint32_t)r.range(0,4); o->parent.reset(new Interleaved<T>(w+l+(uint32_t)r.range(0,4),h+t+(uint32_t)r.range(0,4),b)); o->im.reset(new Interleaved<T>(o->parent->makeSubimage(l,t,l+w,t+h))); } }
        T* p=(T*)o->base(); for(size_t i=0,n=o->blen();i<n;i++) p[i]=garbage<T>(r); o->image=o->im.get(); return o; }
    Holder* parent(Rng& r, uint32_t w, uint32_t h, uint32_t b) const override { return make(r,OWNER,w,h,b); }
    Holder* tile(Holder* p, uint32_t x, uint32_t y, uint32_t w, uint32_t h) const override { IHolder<T>* o=new IHolder<T>; o->tile=true; o->kind=SUB; o->im.reset(new Interleaved<T>(((Interleaved<T>*)p->image)->makeSubimage(x,y,x+w,y+h))); o->image=o->im.get(); return o; }
    std::string name() const override { return std::string("I")+TName<T>::n(); }
};
template<class T> Interleaved<T>& I(Holder* h) { return *(Interleaved<T>*)h->image; }
template<class T> PixelsP inter(Rng& r, uint32_t w, uint32_t h, uint32_t b, double lo, double hi) { auto p=std::make_shared<IPixels<T>>(); p->w=w; p->h=h; p->b=b; p->type=IlType<T>::get(); p->d.resize((size_t)w*h*b); fill_tex<T>(r,p->d.data(),p->d.size(),w*b,lo,hi); return p; }
template<class T> OutSpec iout(uint32_t w, uint32_t h, uint32_t b, bool reshapes=true, PixelsP init=PixelsP()) { OutSpec s; s.type=IlType<T>::get(); s.w=w; s.h=h; s.b=b; s.reshapes=reshapes&&!init; s.init=init; return s; }

// ------------------------------------------------------------------ running
inline Op new_op(const std::string& fam) { Op o; o.family=fam; return o; }
inline u64 op_sig(const Op& o) { u64 h=hbytes(o.desc.data(),o.desc.size()); for(auto& p:o.in) h=hcomb(h,p->hash()); return hcomb(h,o.family.size()); }
inline std::string op_str(const Op& o) { std::string s=o.family+" "+o.desc; for(auto& p:o.in) s+=strf(" %s%ux%u",p->type->name().c_str(),p->w,p->h); return s; }

// holders for one execution
struct Bench { std::vector<std::unique_ptr<Holder>> in,out,ws; Any obj,shared; Env env;
    void collect() { env.in.clear(); env.out.clear(); env.ws.clear(); for(auto& h:in) env.in.push_back(h.get()); for(auto& h:out) env.out.push_back(h.get()); for(auto& h:ws) env.ws.push_back(h.get()); env.obj=obj.get(); env.shared=shared.get(); } };
Holder* make_output(Rng& r, const OutSpec& s, bool plain);            // plain: freshly created, right shape
void build(Rng& r, const Op& o, Bench& b, bool plain);                // everything, of random storage unless plain
std::string execute(const Op& o, Env& e);                             // outcome: text and output pixels, or "threw"
std::string fresh_outcome(Rng& r, const Op& o);                       // with plain images and a new object
std::string describe_difference(const std::string& a, const std::string& b);
const Family& pick_family(Rng& r, std::function<bool(const Family&)> want=nullptr);
} // namespace vh
