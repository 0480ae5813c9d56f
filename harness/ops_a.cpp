#include "ops_conv.hpp"
namespace vh { static FamilyReg reg([](std::vector<Family>& v) { add_conv<U8,S16>(v); add_conv<U8,S32>(v); add_conv<F32,F32>(v); add_norm<U8>(v); add_norm<F32>(v); }); }
