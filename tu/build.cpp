// BuildScanner over the methods of the automaton and of the scanner (contracts)
#include <pire/pire.h>
#include <pire/extra.h>
#include <stddef.h>
using namespace Pire;
#ifndef SC
#define SC Pire::Scanner
#endif
extern "C" {
extern const size_t vc_final_flag = SC::FinalFlag;
extern const size_t vc_tag_size = sizeof(SC::Tag);
extern const size_t vc_dead_flag = SC::DeadFlag;
void vc_build(const Fsm& f, SC& r) { BuildScanner(f, r); }
}
