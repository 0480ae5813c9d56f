#include "c03_impl.hpp"
namespace vh {
void conv_dispatch_c(Ctx& c,int t) { switch(t){ case 0: conv_case<S32,S32>(c); break; case 1: conv_case<S64,S64>(c); break; case 2: conv_case<U16,U16>(c); break; default: conv_case<S32,S64>(c);} }
void setup_run() { large().p=0.004; large().huge_cases=16; }
void run_case(Ctx& c) { int t=(int)c.r.range(0,11); if(t<4) conv_dispatch_a(c,t); else if(t<8) conv_dispatch_b(c,t-4); else conv_dispatch_c(c,t-8); }
}
