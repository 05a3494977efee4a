#include <pire/stub/utf8.cpp>
using namespace Pire;
extern "C" {
size_t vc_len(unsigned char c) { return utf8_rune_len(c); }
size_t vc_len_ucs(wchar32 r) { return utf8_rune_len_by_ucs(r); }
int vc_read(wchar32& r, size_t& len, const unsigned char* s, const unsigned char* e) { return utf8_read_rune(r, len, s, e); }
int vc_put(wchar32 r, size_t& len, unsigned char* s, const unsigned char* e) { return utf8_put_rune(r, len, s, e); }
int vc_round(wchar32 r, size_t& len, unsigned char* s, const unsigned char* e, wchar32& back, size_t& len2) {
	int x = utf8_put_rune(r, len, s, e);
	if (x) return x;
	return utf8_read_rune(back, len2, s, s + len);
}
}
