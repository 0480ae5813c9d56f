#include "ops_conv.hpp"
namespace vh { static FamilyReg reg([](std::vector<Family>& v) { add_conv<S16,S32>(v); add_conv<U16,S32>(v); add_conv<F64,F64>(v); add_norm<S16>(v); add_norm<F64>(v); }); }
