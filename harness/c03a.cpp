#include "c03_impl.hpp"
namespace vh { void conv_dispatch_a(Ctx& c,int t) { switch(t){ case 0: conv_case<U8,S16>(c); break; case 1: conv_case<U8,S32>(c); break; case 2: conv_case<U8,U8>(c); break; default: conv_case<F32,F32>(c);} } }
