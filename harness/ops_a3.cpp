#include "ops_conv.hpp"
namespace vh { static FamilyReg reg([](std::vector<Family>& v) { add_conv<S32,S32>(v); add_conv<S64,S64>(v); add_norm<U16>(v); add_norm<S32>(v); add_norm<S64>(v); }); }
