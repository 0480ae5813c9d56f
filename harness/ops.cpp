#include "ops.hpp"
namespace vh {
static std::vector<void(*)(std::vector<Family>&)>& regs() { static std::vector<void(*)(std::vector<Family>&)> v; return v; }
FamilyReg::FamilyReg(void (*f)(std::vector<Family>&)) { regs().push_back(f); }
const std::vector<Family>& families() { static std::vector<Family> v; if(v.empty()) { for(auto f:regs()) f(v); std::sort(v.begin(),v.end(),[](const Family& a,const Family& b){ return a.name<b.name; }); } return v; }
// families are grouped by the part of the name before '<', so that a routine with many types is not favoured
const Family& pick_family(Rng& r, std::function<bool(const Family&)> want) {
    static std::map<std::string,std::vector<const Family*>> groups; static std::vector<std::string> names;
    if(groups.empty()) { for(auto& f:families()) groups[f.name.substr(0,f.name.find('<'))].push_back(&f); for(auto& g:groups) names.push_back(g.first); }
    for(;;) { auto& g=groups[r.pick(names)]; const Family* f=r.pick(g); if(!want||want(*f)) return *f; }
}
Holder* make_output(Rng& r, const OutSpec& s, bool plain) {
    Holder* h;
    if(plain) { h=s.type->make(r,OWNER,s.w,s.h,s.b); }
    else if(s.reshapes&&r.chance(.3)) h=s.type->make(r,r.chance(.5)?OWNER:REUSED,(uint32_t)r.range(0,2*s.w),(uint32_t)r.range(0,2*s.h),s.b);
    else h=s.type->make(r,rand_kind(r),s.w,s.h,s.b);
    if(s.init) h->load(*s.init);
    return h;
}
void build(Rng& r, const Op& o, Bench& b, bool plain) {
    for(auto& p:o.in) b.in.emplace_back(p->make(r,plain?OWNER:rand_kind(r)));
    for(auto& s:o.out) b.out.emplace_back(make_output(r,s,plain));
    for(auto& s:o.ws) b.ws.emplace_back(make_output(r,s,plain));
    b.collect(); if(o.make_obj) b.obj=o.make_obj(); if(o.bind) b.shared=o.bind(b.env); b.collect();
}
std::string execute(const Op& o, Env& e) {
    { Untrack u; e.text.clear(); }
    try { o.run(e); }
    catch(const std::bad_alloc&) { throw; }
    catch(const std::exception& x) { Untrack u; return std::string("threw"); }
    Untrack u; std::string s=e.text; for(auto h:e.out) h->bytes(s); return s;
}
std::string fresh_outcome(Rng& r, const Op& o) { Bench b; build(r,o,b,true); return execute(o,b.env); }
std::string describe_difference(const std::string& a, const std::string& b) {
    auto head=[](const std::string& s) { std::string o; for(char ch:s.substr(0,160)) o+=(ch>=32&&ch<127)?ch:'.'; return o; };
    size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) i++;
    return strf("sizes %zu and %zu, first difference at byte %zu; expected \"%s\" got \"%s\"",a.size(),b.size(),i,head(a).c_str(),head(b).c_str());
}
}
