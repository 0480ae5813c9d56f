#include "vh.hpp"
namespace vh { thread_local bool nf_native=false; thread_local i64 nf_countdown=-1; thread_local u64 nf_count=0; }
