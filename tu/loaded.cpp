// Wrappers around the real loaded-scanner family; offsets of the fields come from the real classes.
#include <stddef.h>
#include <pire/pire.h>
#include <pire/extra.h>
using namespace Pire;
typedef CapturingScanner Cap;
typedef CountingScanner Cnt;
typedef AdvancedCountingScanner Adv;
typedef NoGlueLimitCountingScanner Ngl;
extern "C" {
void vc_cap_init(const Cap& s, Cap::State& st) { s.Initialize(st); }
void vc_cap_take(const Cap& s, Cap::State& st, Cap::Action a) { s.TakeAction(st, a); }
Cap::Action vc_cap_next(const Cap& s, Cap::State& st, Char c) { return s.Next(st, c); }
Cap::Action vc_cap_nextt(const Cap& s, Cap::State& st, unsigned char c) { return s.NextTranslated(st, c); }
Cap::Action vc_cap_next3(const Cap& s, const Cap::State& a, Cap::State& b, Char c) { return s.Next(a, b, c); }
Char vc_cap_translate(const Cap& s, Char c) { return s.Translate(c); }
bool vc_cap_captured(const Cap::State& s) { return s.Captured(); }
size_t vc_cap_begin(const Cap::State& s) { return s.Begin(); }
size_t vc_cap_end(const Cap::State& s) { return s.End(); }
bool vc_cap_final(const Cap& s, const Cap::State& st) { return s.Final(st); }
bool vc_cap_canstop(const Cap& s, const Cap::State& st) { return s.CanStop(st); }
bool vc_cap_dead(const Cap& s, const Cap::State& st) { return s.Dead(st); }
size_t vc_cap_index(const Cap& s, const Cap::State& st) { return s.StateIndex(st); }

void vc_cnt_init(const Cnt& s, Cnt::State& st) { s.Initialize(st); }
void vc_adv_init(const Adv& s, Adv::State& st) { s.Initialize(st); }
void vc_cnt_take(const Cnt& s, Cnt::State& st, Cnt::Action a) { s.TakeAction(st, a); }
void vc_adv_take(const Adv& s, Adv::State& st, Adv::Action a) { s.TakeAction(st, a); }
Cnt::Action vc_cnt_next(const Cnt& s, Cnt::State& st, Char c) { return s.Next(st, c); }
Adv::Action vc_adv_next(const Adv& s, Adv::State& st, Char c) { return s.Next(st, c); }
Ngl::Action vc_ngl_next(const Ngl& s, Ngl::State& st, Char c) { return s.Next(st, c); }
Cnt::Action vc_cnt_next3(const Cnt& s, const Cnt::State& a, Cnt::State& b, Char c) { return s.Next(a, b, c); }
size_t vc_cnt_result(const Cnt::State& s, int i) { return s.Result(i); }
bool vc_cnt_final(const Cnt& s, const Cnt::State& st) { return s.Final(st); }
bool vc_cnt_dead(const Cnt& s, const Cnt::State& st) { return s.Dead(st); }
Cnt::Action vc_cnt_remap(Cnt& s, Cnt::Action a) { return s.RemapAction(a); }
Adv::Action vc_adv_remap(Adv& s, Adv::Action a) { return s.RemapAction(a); }
Ngl::Action vc_ngl_remap(Ngl& s, Ngl::Action a) { return s.RemapAction(a); }
void vc_ngl_init(const Ngl& s, Ngl::State& st) { s.Initialize(st); }
void vc_ngl_take(const Ngl& s, Ngl::State& st, Ngl::Action a) { s.TakeAction(st, a); }
size_t vc_ngl_result(const Ngl::State& s, int i) { return s.Result(i); }

extern const unsigned long vc_off_letters = offsetof(LoadedScanner, m_letters);
extern const unsigned long vc_off_jumps = offsetof(LoadedScanner, m_jumps);
extern const unsigned long vc_off_tags = offsetof(LoadedScanner, m_tags);
extern const unsigned long vc_off_buffer = offsetof(LoadedScanner, m_buffer);
extern const unsigned long vc_off_m = offsetof(LoadedScanner, m);
extern const unsigned long vc_off_statesCount = offsetof(LoadedScanner, m.statesCount);
extern const unsigned long vc_off_lettersCount = offsetof(LoadedScanner, m.lettersCount);
extern const unsigned long vc_off_regexpsCount = offsetof(LoadedScanner, m.regexpsCount);
extern const unsigned long vc_off_initial = offsetof(LoadedScanner, m.initial);
extern const unsigned long vc_size_loaded = sizeof(LoadedScanner);
extern const unsigned long vc_off_cap_state = offsetof(Cap::State, m_state);
extern const unsigned long vc_off_cap_begin = offsetof(Cap::State, m_begin);
extern const unsigned long vc_off_cap_end = offsetof(Cap::State, m_end);
extern const unsigned long vc_off_cap_counter = offsetof(Cap::State, m_counter);
extern const unsigned long vc_size_cap_state = sizeof(Cap::State);
extern const unsigned long vc_off_cnt_state = offsetof(Cnt::State, m_state);
extern const unsigned long vc_off_cnt_current = offsetof(Cnt::State, m_current);
extern const unsigned long vc_off_cnt_total = offsetof(Cnt::State, m_total);
extern const unsigned long vc_off_cnt_mask = offsetof(Cnt::State, m_updatedMask);
extern const unsigned long vc_size_cnt_state = sizeof(Cnt::State);
extern const unsigned long vc_max_re = LoadedScanner::MAX_RE_COUNT;
extern const unsigned long vc_max_char = MaxChar;
extern const unsigned long vc_off_ngl_mode = offsetof(Ngl, AdvancedScannerCompatibilityMode);
extern const unsigned long vc_off_ngl_actions = offsetof(Ngl, Actions);
extern const unsigned long vc_off_ngl_buffer = offsetof(Ngl, ActionsBuffer);
extern const unsigned long vc_size_ngl = sizeof(Ngl);
extern const unsigned long vc_off_ngl_state = offsetof(Ngl::State, m_state);
extern const unsigned long vc_off_ngl_current = offsetof(Ngl::State, m_current);
extern const unsigned long vc_off_ngl_total = offsetof(Ngl::State, m_total);
extern const unsigned long vc_size_ngl_state = sizeof(Ngl::State);
}
