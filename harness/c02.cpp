// C02: any operation on views gives what it gives on stand-alone images and touches nothing else.
#include "ops.hpp"
namespace vh {
void setup_run() { large().p=0.003; }
// inputs, outputs and workspaces of one type as disjoint tiles of one image
struct Commons { std::unique_ptr<Holder> parent; uint32_t w=0,h=0,b=1; struct Tile { Holder* t; uint32_t x,y,w,h; bool input; }; std::vector<Tile> tiles; std::string before;
    static std::string pixels(Holder* p) { Untrack u; std::string s; p->bytes(s); return s.substr(s.find(']')+1); }
    void check(Ctx& c, const Op& o) { std::string now=pixels(parent.get()); size_t n=(size_t)w*h; if(now.size()!=before.size()) c.fail("wrote-outside:"+o.family,"the parent of the views has another shape"); if(!n) return; size_t es=now.size()/n; std::vector<char> kind(n,0); for(auto& t:tiles) for(uint32_t y=0;y<t.h;y++) for(uint32_t x=0;x<t.w;x++) kind[(size_t)(t.y+y)*w+t.x+x]=t.input?1:2;
        for(size_t k=0;k<n;k++) if(kind[k]!=2&&memcmp(&now[k*es],&before[k*es],es)) c.fail((kind[k]?"input-modified:":"wrote-outside:")+o.family,"pixel (%zu,%zu) of the image which the inputs and outputs are parts of changed, %s",k%w,k/w,kind[k]?"it belongs to an input":"it belongs to no output"); } };
static bool build_commons(Rng& r, const Op& o, Bench& b, std::vector<Commons>& all) {
    struct Item { int role; size_t i; const IType* t; uint32_t w,h,b; const Pixels* content; }; std::vector<Item> items; for(size_t i=0;i<o.in.size();i++) items.push_back({0,i,o.in[i]->type,o.in[i]->w,o.in[i]->h,o.in[i]->b,o.in[i].get()}); for(size_t i=0;i<o.out.size();i++) items.push_back({1,i,o.out[i].type,o.out[i].w,o.out[i].h,o.out[i].b,o.out[i].init.get()}); for(size_t i=0;i<o.ws.size();i++) items.push_back({2,i,o.ws[i].type,o.ws[i].w,o.ws[i].h,o.ws[i].b,o.ws[i].init.get()});
    b.in.resize(o.in.size()); b.out.resize(o.out.size()); b.ws.resize(o.ws.size()); bool shared=false; std::vector<char> done(items.size(),0);
    for(size_t a=0;a<items.size();a++) { if(done[a]) continue; std::vector<size_t> g; for(size_t q=a;q<items.size();q++) if(!done[q]&&items[q].t==items[a].t&&items[q].b==items[a].b&&(q==a||r.chance(.85))) g.push_back(q); for(size_t q:g) done[q]=1; for(size_t q=g.size();q-->1;) std::swap(g[q],g[r.range(0,q)]);
        all.emplace_back(); Commons& k=all.back(); bool across=r.chance(.5); k.b=items[a].b; uint32_t x=(uint32_t)r.range(0,2),y=(uint32_t)r.range(0,2); std::vector<std::pair<uint32_t,uint32_t>> at; for(size_t q:g) { at.push_back({x,y}); k.w=std::max(k.w,x+items[q].w); k.h=std::max(k.h,y+items[q].h); uint32_t gap=r.chance(.5)?0:(uint32_t)r.range(0,3); if(across) x+=items[q].w+gap; else y+=items[q].h+gap; } k.w+=(uint32_t)r.range(0,2); k.h+=(uint32_t)r.range(0,2);
        k.parent.reset(items[a].t->parent(r,k.w,k.h,k.b)); k.parent->scramble(r); for(size_t z=0;z<g.size();z++) { Item& it=items[g[z]]; Holder* h=it.t->tile(k.parent.get(),at[z].first,at[z].second,it.w,it.h); if(it.content) h->load(*it.content); (it.role==0?b.in:it.role==1?b.out:b.ws)[it.i].reset(h); k.tiles.push_back({h,at[z].first,at[z].second,it.w,it.h,it.role==0}); }
        if(g.size()>1) shared=true; k.before=Commons::pixels(k.parent.get()); }
    b.collect(); if(o.make_obj) b.obj=o.make_obj(); if(o.bind) b.shared=o.bind(b.env); b.collect(); return shared; }
void run_case(Ctx& c) {
    Rng& r=c.r; const Family& f=pick_family(r,[](const Family& f){ return f.name.compare(0,6,"kernel")&&f.name.compare(0,4,"otsu")&&f.name.compare(0,4,"pack"); }); GenOpt go; go.big=r.chance(.1)?70:28; Op o=f.gen(r,go);
    c.note("%s",op_str(o).c_str()); c.hash(op_sig(o)); std::string want=fresh_outcome(r,o); if(want=="threw") c.fail("refused:"+o.family,"a legal request was refused");
    if(r.chance(.2)&&(!o.out.empty()||!o.ws.empty())) { std::vector<Commons> all; all.reserve(8); Bench b; if(build_commons(r,o,b,all)) { std::string got=execute(o,b.env); for(auto& k:all) k.check(c,o); for(auto& k:all) for(auto& t:k.tiles) { uint32_t w,h,q; t.t->shape(w,h,q); if(w!=t.w||h!=t.h||q!=k.b) c.fail("output-shape:"+o.family,"a view has another shape afterwards"); }
        if(got!=want) c.fail("storage-dependent:"+o.family,"%s; inputs and outputs are disjoint parts of one image",describe_difference(want,got).c_str()); c.ev("parts.of.one.image"); } }
    int n=(int)r.range(1,3);
    for(int k=0;k<n;k++) {
        Bench b; build(r,o,b,false); bool v=false; u64 kinds=hbytes(o.family.data(),o.family.size()); std::string ks; auto add=[&](const char* w, std::vector<std::unique_ptr<Holder>>& l) { for(auto& h:l) { h->snapshot(); v=v||h->view(); kinds=hcomb(kinds,h->kind); ks+=strf(" %s=%s",w,kname(h->kind)); } }; add("in",b.in); add("out",b.out); add("ws",b.ws);
        std::string got=execute(o,b.env); std::string where=strf("storage:%s",ks.c_str());
        for(size_t i=0;i<b.in.size();i++) if(const char* e=b.in[i]->changed()) c.fail("input-modified:"+o.family,"input %zu: %s; %s",i,e,where.c_str());
        for(size_t i=0;i<b.out.size();i++) if(const char* e=b.out[i]->outside()) c.fail("wrote-outside:"+o.family,"output %zu: %s; %s",i,e,where.c_str());
        for(size_t i=0;i<b.ws.size();i++) if(const char* e=b.ws[i]->outside()) c.fail("wrote-outside:"+o.family,"workspace %zu: %s; %s",i,e,where.c_str());
        for(size_t i=0;i<b.out.size();i++) { uint32_t w,h,q; b.out[i]->shape(w,h,q); if(w!=o.out[i].w||h!=o.out[i].h||q!=o.out[i].b) c.fail("output-shape:"+o.family,"output %zu is %ux%ux%u, expected %ux%ux%u; %s",i,w,h,q,o.out[i].w,o.out[i].h,o.out[i].b,where.c_str()); }
        if(got!=want) c.fail("storage-dependent:"+o.family,"%s; %s",describe_difference(want,got).c_str(),where.c_str());
        c.state(kinds); c.ev("executions"); if(v) { c.ev("with.views"); c.nontrivial(); }
        for(auto& h:b.in) c.ev((std::string("in.")+kname(h->kind)).c_str()); for(auto& h:b.out) c.ev((std::string("out.")+kname(h->kind)).c_str()); for(auto& h:b.ws) c.ev((std::string("ws.")+kname(h->kind)).c_str());
    }
    c.ev(o.family.substr(0,o.family.find('<')).c_str());
}
}
