#include <pire/encoding.cpp>
using namespace Pire;
extern "C" {
wchar32 vc_u_from(const Utf8& u, const char*& b, const char* e) { return u.Pire::Utf8::FromLocal(b, e); }
wchar32 vc_l_from(const Latin1& u, const char*& b, const char* e) { return u.Pire::Latin1::FromLocal(b, e); }
void vc_u_to(const Utf8& u, wchar32 c, std::string* out) { new (out) std::string(u.Pire::Utf8::ToLocal(c)); }
void vc_l_to(const Latin1& u, wchar32 c, std::string* out) { new (out) std::string(u.Pire::Latin1::ToLocal(c)); }
void vc_u_dot(const Utf8& u, Fsm& f) { u.Pire::Utf8::AppendDot(f); }
void vc_l_dot(const Latin1& u, Fsm& f) { u.Pire::Latin1::AppendDot(f); }
}
