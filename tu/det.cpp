// Determinization and minimization (contracts)
#include "fsmops.cpp"
typedef Impl::FsmDetermineTask DT;
extern "C" {
extern const size_t vc_size_task = sizeof(DT);
extern const size_t vc_off_dt_fsm = offsetof(DT, mFsm);
extern const size_t vc_off_dt_terminals = offsetof(DT, mTerminals);
extern const size_t vc_off_dt_new = offsetof(DT, mNewFsm);
extern const size_t vc_off_dt_newterminals = offsetof(DT, mNewTerminals);
void vc_next(const DT& t, const DT::State& s, Char c, DT::State* r) { new (r) DT::State(t.Next(s, c)); }
bool vc_required(const DT& t, const DT::State& s) { return t.IsRequired(s); }
void vc_first(const DT& t, DT::State* r) { new (r) DT::State(t.Initial()); }
void vc_terminals(const Fsm& f, TSet<size_t>* r) { new (r) TSet<size_t>(f.TerminalStates()); }
bool vc_success(DT& t) { return t.Success(); }
void vc_accept(DT& t, const TVector<DT::State>& s) { t.AcceptStates(s); }
}
typedef Impl::FsmMinimizeTask MT;
extern "C" {
extern const size_t vc_size_mtask = sizeof(MT);
extern const size_t vc_off_mt_fsm = offsetof(MT, mFsm);
extern const size_t vc_off_mt_new = offsetof(MT, mNewFsm);
extern const size_t vc_off_mt_class = offsetof(MT, StateClass);
extern const size_t vc_off_mt_classes = offsetof(MT, Classes);
extern const size_t vc_off_mt_prev = offsetof(MT, reversedTransitions);
void vc_maccept(MT& t) { t.AcceptStates(); }
const TVector<size_t>& vc_previous(const MT& t, size_t s, size_t l) { return t.Previous(s, l); }
}
