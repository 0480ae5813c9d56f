// C01: every operation on every shape, layout and legal parameter, watched by the sanitizers; results must not depend on what
// fresh memory happens to contain.
#include "ops.hpp"
extern unsigned char nf_pattern; extern bool nf_fill; bool nf_active();
namespace vh {
void setup_run() { large().p=0.003; }
static void one(Ctx& c, const Op& o, Any* obj) {
    Rng& r=c.r; bool plain=r.chance(.15); c.note("%s",op_str(o).c_str()); c.hash(op_sig(o));
    u64 sd=r.next(); std::string first; int n=nf_active()?2:1;
    for(int k=0;k<n;k++) { nf_fill=nf_active(); nf_pattern=k?0xA7:0x00; Rng q(sd); Bench b; build(q,o,b,plain); if(obj) { if(*obj&&n==1) { b.obj=*obj; b.collect(); } else *obj=b.obj; } std::string got=execute(o,b.env); nf_fill=false;
        if(got=="threw") c.fail("refused:"+o.family,"a legal request was refused"); c.ev("executions");
        if(k==0) first=got; else { c.ev("compared.with.other.fill"); if(got!=first) c.fail("uninitialised:"+o.family,"the result depends on the content of fresh memory: %s",describe_difference(first,got).c_str()); } }
    c.nontrivial(); c.ev(o.family.substr(0,o.family.find('<')).c_str()); bool e=false,thin=false; auto see=[&](uint32_t w,uint32_t h){ if(!w||!h) e=true; if(w==1||h==1) thin=true; }; for(auto& p:o.in) see(p->w,p->h); for(auto& s:o.out) see(s.w,s.h); if(e) c.ev("empty.images"); if(thin) c.ev("one.pixel.wide.or.tall");
    c.state(hcomb(hbytes(o.family.data(),o.family.size()),o.in.empty()?0:hcomb(std::min(o.in[0]->w,24u),std::min(o.in[0]->h,24u))));
}
void run_case(Ctx& c) {
    Rng& r=c.r; const Family& f=pick_family(r); GenOpt go; go.big=r.chance(.08)?110:r.chance(.5)?28:10; if(g_variant=="vg") go.big=14;
    if(r.chance(.04)&&g_variant!="vg") { go.fixed=true; bool tall=r.chance(.5); go.fw=(uint32_t)r.range(1,3); go.fh=(uint32_t)r.range(200,3000); if(!tall) std::swap(go.fw,go.fh); c.ev("very.elongated"); }
    int n=f.object?(int)r.range(1,3):1; std::map<std::string,Any> objs; for(int k=0;k<n;k++) { Op o=f.gen(r,go); one(c,o,o.make_obj?&objs[o.obj_key]:nullptr); }
}
}
