// Partition over an arbitrary equivalence (contracts)
#include <pire/partition.h>
#include <pire/fsm.h>
#include <stddef.h>
using namespace Pire;
struct VcEq { size_t dummy; bool operator()(Char a, Char b) const; };
typedef Partition<Char, VcEq> Part;
extern "C" {
extern const size_t vc_size = sizeof(Part);
extern const size_t vc_off_set = offsetof(Part, m_set);
extern const size_t vc_off_inv = offsetof(Part, m_inv);
extern const size_t vc_off_max = offsetof(Part, m_maxidx);
void vc_append(Part& p, const Char& t) { p.Append(t); }
Char vc_rep(const Part& p, const Char& t) { return p.Representative(t); }
bool vc_contains(const Part& p, const Char& t) { return p.Contains(t); }
size_t vc_index(const Part& p, const Char& t) { return p.Index(t); }
const TVector<Char>& vc_klass(const Part& p, const Char& t) { return p.Klass(t); }
}
