// The enumeration of determine.h over an arbitrary task: its methods have contracts, no bodies
#include <stddef.h>
#include "fsm.h"
#include "determine.h"
using namespace Pire;
struct ATask {
	typedef size_t State;
	typedef TMap<State, size_t> InvStates;
	typedef Fsm::LettersTbl LettersTbl;
	typedef bool Result;
	const LettersTbl& Letters() const;
	State Initial() const;
	bool IsRequired(const State&) const;
	State Next(const State&, Char) const;
	void AcceptStates(const TVector<State>&);
	void Connect(size_t, size_t, Char);
	Result Success();
	Result Failure();
};
extern "C" {
bool vc_enumerate(ATask& t, size_t limit) { return Impl::Determine(t, limit); }
}
