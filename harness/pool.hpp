// Objects, outputs and workspaces kept between operations.
#pragma once
#include "ops.hpp"
namespace vh {
struct Pool {
    std::map<std::string,Any> objs; std::map<std::string,std::unique_ptr<Holder>> holders; Any shared; Env env;
    bool has_obj(const Op& o) { return o.make_obj&&objs.count(o.family+o.obj_key); }
    Holder* holder(Rng& r, const char* role, size_t i, const IType* t, uint32_t w, uint32_t h, uint32_t b, bool reshapes, bool* reused) {
        std::string key; { Untrack u; key=strf("%s%zu%s",role,i,t->name().c_str()); } std::unique_ptr<Holder>& p=holders[key]; uint32_t a=0,d=0,e=0;
        if(!p) p.reset(t->make(r,OWNER,w,h,b)); else { *reused=true; p->shape(a,d,e); if((!reshapes||e!=b)&&(a!=w||d!=h||e!=b)) p->reshape(w,h,b); }
        return p.get(); }
    double copies=0; bool copied=false; std::map<std::string,Any> older;
    // the kept object is replaced by a copy of it, while the original is destroyed, kept for later, or overwritten with something else
    bool copy_object(Rng& r, const Op& o, Any& a) {
        if(!o.copying.copy||!o.copying.assign) return false;
        Any& old=older[o.family+o.obj_key];
        switch(r.range(0,5)) {
            case 0: a=o.copying.copy(a.get()); return true;
            case 1: { Any b=o.copying.copy(a.get()); old=a; a=b; return true; }
            case 2: { Any b=o.make_obj(); o.copying.assign(b.get(),a.get()); if(r.chance(.5)) old=a; a=b; return true; }
            case 3: if(old) { o.copying.assign(old.get(),a.get()); std::swap(old,a); return true; } old=o.copying.copy(a.get()); return true;
            case 4: o.copying.assign(a.get(),a.get()); return true;
            default: if(!old) return false; std::swap(old,a); return true; } }
    // connects the environment to kept holders (and inputs, loaded with the content); false: something was created
    bool prepare(Rng& r, const Op& o, bool* reused) {
        env.in.clear(); env.out.clear(); env.ws.clear(); *reused=false; bool ri=false;
        for(size_t i=0;i<o.in.size();i++) { const Pixels& p=*o.in[i]; Holder* h=holder(r,"in",i,p.type,p.w,p.h,p.b,false,&ri); h->load(p); env.in.push_back(h); }
        for(size_t i=0;i<o.out.size();i++) { const OutSpec& s=o.out[i]; Holder* h=holder(r,"out",i,s.type,s.w,s.h,s.b,s.reshapes,reused); if(s.init) h->load(*s.init); env.out.push_back(h); }
        for(size_t i=0;i<o.ws.size();i++) { const OutSpec& s=o.ws[i]; env.ws.push_back(holder(r,"ws",i,s.type,s.w,s.h,s.b,s.reshapes,reused)); }
        env.obj=nullptr; if(o.make_obj) { Any& a=objs[o.family+o.obj_key]; if(!a) a=o.make_obj(); else *reused=true; copied=false; if(copies>0&&*reused&&r.chance(copies)) copied=copy_object(r,o,a); env.obj=a.get(); }
        shared.reset(); if(o.bind) shared=o.bind(env); env.shared=shared.get(); return true; }
};
}
