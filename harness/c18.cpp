// C18: threads with shared inputs and separate outputs (adjacent views of one parent).
#include "ops.hpp"
#include <thread>
#include <atomic>
namespace vh {
void setup_run() { large().p=0.002; large().area=4000; families(); }
struct Worker { size_t op; Any obj; std::vector<std::unique_ptr<Holder>> out,ws; Env env; std::vector<std::string> got; int reps; int yields; u64 t0,t1; };
static std::atomic<int> gate; static std::atomic<u64> tick;
static void work(Worker* w, const Op* o) {
    gate.fetch_add(-1,std::memory_order_relaxed); for(int k=0;gate.load(std::memory_order_relaxed)>0;k++) if(k>2000) std::this_thread::yield();
    for(int k=0;k<w->yields;k++) std::this_thread::yield();
    w->t0=tick.fetch_add(1,std::memory_order_relaxed);
    for(int k=0;k<w->reps;k++) w->got.push_back(execute(*o,w->env));
    w->t1=tick.fetch_add(1,std::memory_order_relaxed);
}
void run_case(Ctx& c) {
    Rng& r=c.r; u64 ld=large().drawn; int nops=(int)r.range(1,r.chance(.5)?1:3), nth=(int)r.range(2,6); if(nth<nops) nth=nops; std::vector<Op> ops; std::vector<std::string> want; std::vector<Bench> inputs(nops); std::vector<Any> shared;
    for(int k=0;k<nops;k++) { const Family& f=pick_family(r); GenOpt go; go.big=r.chance(.15)?90:24; ops.push_back(f.gen(r,go)); if(r.chance(.15)) { Op b=f.gen(r,go); if(f.can_fail) { go.bad=true; ops.back()=f.gen(r,go); c.ev("failing.calls"); } } Op& o=ops.back(); c.note("%s",op_str(o).c_str()); c.hash(op_sig(o)); c.ev(o.family.substr(0,o.family.find('<')).c_str());
        want.push_back(fresh_outcome(r,o)); if(want.back()=="threw"&&!o.bad) c.fail("refused:"+o.family,"a legal request was refused"); for(auto& p:o.in) inputs[k].in.emplace_back(p->make(r,rand_kind(r))); for(auto& h:inputs[k].in) h->snapshot(); inputs[k].collect(); shared.push_back(o.bind?o.bind(inputs[k].env):Any()); }
    bool lg=large().drawn!=ld; if(lg) nth=std::max(nops,std::min(nth,3));
    // outputs: tiles of one parent per pixel type, side by side
    std::vector<Worker> ws((size_t)nth); std::map<std::string,std::pair<uint32_t,uint32_t>> need; std::map<std::string,const IType*> types; bool tiled=r.chance(.8);
    auto key=[](const OutSpec& s) { return strf("%s/%u",s.type->name().c_str(),s.b); };
    for(int t=0;t<nth;t++) { ws[t].op=(size_t)(t%nops); for(auto& s:ops[ws[t].op].out) { auto& q=need[key(s)]; q.first+=s.w; q.second=std::max(q.second,s.h); types[key(s)]=s.type; } for(auto& s:ops[ws[t].op].ws) { auto& q=need[key(s)]; q.first+=s.w; q.second=std::max(q.second,s.h); types[key(s)]=s.type; } }
    std::map<std::string,std::unique_ptr<Holder>> parents; std::map<std::string,uint32_t> at; if(tiled) for(auto& q:need) { uint32_t b=(uint32_t)atoi(q.first.substr(q.first.find('/')+1).c_str()); parents[q.first].reset(types[q.first]->parent(r,q.second.first,q.second.second,b)); }
    for(int t=0;t<nth;t++) { Worker& w=ws[t]; Op& o=ops[w.op]; auto mk=[&](const OutSpec& s)->Holder* { Holder* h; if(tiled) { std::string k=key(s); h=s.type->tile(parents[k].get(),at[k],0,s.w,s.h); at[k]+=s.w; } else h=make_output(r,s,r.chance(.5)); if(s.init) h->load(*s.init); return h; };
        for(auto& s:o.out) w.out.emplace_back(mk(s)); for(auto& s:o.ws) w.ws.emplace_back(mk(s)); for(auto& h:inputs[w.op].in) w.env.in.push_back(h.get()); for(auto& h:w.out) w.env.out.push_back(h.get()); for(auto& h:w.ws) w.env.ws.push_back(h.get()); if(o.make_obj) w.obj=o.make_obj(); w.env.obj=w.obj.get(); w.env.shared=shared[w.op].get(); bool inout=false; for(auto& s:o.out) if(s.init) inout=true; w.reps=inout||lg?1:(int)r.range(1,4); w.yields=(int)r.range(0,3); }
    gate=nth; tick=0; std::vector<std::thread> th; for(int t=0;t<nth;t++) th.emplace_back(work,&ws[t],&ops[ws[t].op]); for(auto& t:th) t.join();
    u64 order=0; std::vector<std::pair<u64,int>> evs; bool overlap=false; for(int t=0;t<nth;t++) { evs.push_back(std::make_pair(ws[t].t0,t)); evs.push_back(std::make_pair(ws[t].t1,t)); if(ws[t].t1>ws[t].t0+1) overlap=true; } std::sort(evs.begin(),evs.end()); for(auto& e:evs) order=hcomb(order,(u64)e.second); c.state(hcomb(order,hbytes(ops[0].family.data(),ops[0].family.size()))); if(overlap) { c.ev("cases.with.overlap"); c.nontrivial(); }
    for(int t=0;t<nth;t++) for(auto& g:ws[t].got) { c.ev("concurrent.calls"); if(g!=want[ws[t].op]) c.fail("concurrent-result:"+ops[ws[t].op].family,"thread %d (%s): %s",t,op_str(ops[ws[t].op]).c_str(),describe_difference(want[ws[t].op],g).c_str()); }
    for(int t=0;t<nth;t++) { std::string s; for(auto& h:ws[t].out) h->bytes(s); std::string& g=ws[t].got.back(); if(!ops[ws[t].op].bad&&(g.size()<s.size()||g.compare(g.size()-s.size(),s.size(),s))) c.fail("output-disturbed:"+ops[ws[t].op].family,"the output of thread %d changed after it was finished",t); }
    for(int k=0;k<nops;k++) for(auto& h:inputs[k].in) if(const char* e=h->changed()) c.fail("input-modified:"+ops[k].family,"%s",e);
    if(tiled) c.ev("outputs.are.tiles"); c.ev(strf("threads.%d",nth).c_str()); c.ev("cases"); if(nops==1) c.ev("all.threads.share.inputs");
}
}
