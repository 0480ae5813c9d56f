// C17: kept objects, outputs, workspaces and inputs give what fresh ones give.
#include "pool.hpp"
#include "pristine.hpp"
namespace vh {
static Pristine g_pristine;
void setup_run() { large().p=0.002; large().area=9000; families(); g_pristine.start(); }
void run_case(Ctx& c) {
    Rng& r=c.r; std::vector<const Family*> fs; int nf=(int)r.range(1,r.chance(.6)?1:4); bool wantobj=r.chance(.6); for(int k=0;k<nf;k++) fs.push_back(&pick_family(r,[&](const Family& f){ return !wantobj||f.object||r.chance(.05); }));
    Pool p; p.copies=.12; Op last; bool have=false; Pristine::Request req; memset(&req,0,sizeof req); u64 made=0; const Family* madeby=nullptr; int n=(int)r.range(3,10); bool lng=r.chance(.004); if(lng) { n=(int)r.range(40,300); c.ev("long.histories"); } u64 hist=0;
    for(int k=0;k<n;k++) {
        // one call again, or one with nearly the same parameters, or another one
        Op o; bool again=have&&r.chance(.2), nearly=made&&!again&&r.chance(.3); if(again) { o=last; c.ev("same.call.again"); }
        else if(nearly) { Nudge nu; nu.choose(r,made); Rng g; g.s=req.rng; g.nu=&nu; req.nudges=0; for(auto& a:nu.at) { req.nudge[req.nudges].at=a.first; req.nudge[req.nudges++].by=a.second; } o=madeby->gen(g,req.go); c.ev("nearly.same.call"); }
        else { GenOpt go; go.big=lng?12:r.chance(.1)?60:24; const Family* f=r.pick(fs); go.bad=f->can_fail&&r.chance(.12); Nudge count; Rng g(r.next()); g.nu=&count; memset(&req,0,sizeof req); snprintf(req.family,sizeof req.family,"%s",f->name.c_str()); req.rng=g.s; req.go=go; o=f->gen(g,go); made=count.n; madeby=f; }
        c.note("%s%s",again?"again ":nearly?"nearly ":"",k==n-1||c.desc.size()<500?op_str(o).c_str():""); c.hash(op_sig(o));
        bool reused=false, objreused=p.has_obj(o); p.prepare(r,o,&reused); set_phase(c.desc+" | "+op_str(o));
        for(auto h:p.env.in) h->snapshot();
        std::string got=execute(o,p.env); for(auto h:p.env.in) if(const char* e=h->changed()) c.fail("input-modified:"+o.family,"%s",e);
        if(o.bad) { if(got!="threw") c.fail("accepted:"+o.family,"an invalid request was accepted: %s",op_str(o).c_str()); c.ev("failed.calls"); have=false; continue; }
        std::string want=fresh_outcome(r,o); if(want=="threw") c.fail("refused:"+o.family,"a legal request was refused by a fresh object: %s",op_str(o).c_str());
        if(got!=want) c.fail("history-dependent:"+o.family,"call %d of the history, %s: %s",k+1,op_str(o).c_str(),describe_difference(want,got).c_str());
        if(r.chance(nearly?.25:.03)) { Untrack u; std::string clean; req.run=r.next(); if(!g_pristine.ask(req,clean)) c.fail("died:"+o.family,"an untouched process does not survive %s",op_str(o).c_str()); if(got!=clean) c.fail("process-dependent:"+o.family,"call %d of the history, %s, has another result in a process that did nothing before: %s",k+1,op_str(o).c_str(),describe_difference(clean,got).c_str()); c.ev("compared.with.untouched.process"); }
        last=o; have=true; c.ev("calls.compared"); if(reused) { c.ev("calls.with.reused.storage"); c.nontrivial(); } if(objreused) c.ev("calls.with.reused.object"); if(p.copied) c.ev("calls.with.copied.object"); hist=hcomb(hist,hbytes(o.family.data(),o.family.size())); c.state(hcomb(hist,o.in.empty()?0:hcomb(o.in[0]->w,o.in[0]->h)));
        c.ev(o.family.substr(0,o.family.find('<')).c_str());
    }
}
}
