// The counting fsm over Fsm (contracts)
#include "half_final_fsm.cpp"
using namespace Pire;
extern "C" {
size_t vc_hf_count(const HalfFinalFsm& f, size_t s) { return f.GetCount(s); }
size_t vc_hf_total(const HalfFinalFsm& f) { return f.GetTotalCount(); }
}
