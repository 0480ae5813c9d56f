#include "c03_impl.hpp"
namespace vh { void conv_dispatch_b(Ctx& c,int t) { switch(t){ case 0: conv_case<S16,S16>(c); break; case 1: conv_case<S16,S32>(c); break; case 2: conv_case<U16,S32>(c); break; default: conv_case<F64,F64>(c);} } }
