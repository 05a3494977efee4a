From 057c53958150b3dc5d31ae8c4a62367e232ec0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 01/25] fix: LongestPrefix() misses positions passed over by a
 shortcut

---
 pire/scanners/multi.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..85292a9 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -984,6 +984,11 @@ public:
 			// Do fast forwarding while it is possible
 			const Word* skipEnd = Shortcutting::Run(scanner, state, alignOffset, head, tail);
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
+			// The state holds at every skipped position, the last of them matters to the predicate
+			if (skipEnd != head && pred(scanner, state, (const char*)skipEnd) == Stop) {
+				st = state;
+				return Stop;
+			}
 			head = skipEnd;
 			noShortcut = true;
 		}
-- 
2.43.0


From 1c0b031209a8e46ebdef2e27f5fe8b69bd1b39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 02/25] fix: ShortestSuffix() loses a found suffix when the
 begin mark is requested

---
 pire/run.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..c8e5b8a 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -356,7 +356,7 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 		scanner.Next(state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From ecc40d4a80dd13b1733d55834fed38318738cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 03/25] fix: ShortestSuffix() does not take the scanner's
 actions

---
 pire/run.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/run.h b/pire/run.h
index c8e5b8a..645740d 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -353,7 +353,7 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 	PIRE_IFDEBUG(Cdbg << "Initial state " << StDump(scanner, state) << Endl);
 
 	for (; rbegin != rend && !scanner.Final(state) && !scanner.Dead(state); --rbegin) {
-		scanner.Next(state, (unsigned char)*rbegin);
+		Step(scanner, state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
 	if (throughBeginMark && !scanner.Final(state))
-- 
2.43.0


From f78ae7c0d9f9623a2c1e1b328ce178866a6ed542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 04/25] fix: utf8_read_rune() reads a byte of an empty range

---
 pire/stub/codepage_h.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/stub/codepage_h.h b/pire/stub/codepage_h.h
index d43b8c8..5ab3c73 100644
--- a/pire/stub/codepage_h.h
+++ b/pire/stub/codepage_h.h
@@ -262,6 +262,7 @@ RECODE_RESULT utf8_read_rune(wchar32 &rune, size_t &rune_len, const unsigned cha
 	rune_len = 0;
 	wchar32 _rune;
 
+	if (s >= end) return RECODE_EOINPUT;        //[EOINPUT] nothing to read
 	size_t _len = utf8_rune_len(*s);
 	if (s + _len > end) return RECODE_EOINPUT;  //[EOINPUT]
 	if (_len==0) return RECODE_BROKENSYMBOL;    //[BROKENSYMBOL] in first byte
-- 
2.43.0


From c3a98e32dab0561cd20a797a640ac46ab45e7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 05/25] fix: operator += forgets the words of lhs when the
 initial state of rhs is final

---
 pire/fsm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..5c88d3d 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -485,7 +485,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	// If rhs accepts the empty word, what lhs accepts is accepted as it is
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From 2ea3419940573537656934eee4dbc44867664012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 06/25] fix: operator += on an FSM and itself overruns the
 transition table

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 5c88d3d..66baa2d 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -469,6 +469,9 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this += Fsm(rhs);
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
-- 
2.43.0


From 90e74a754b932f7521c6639c106a268e5c0ce9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 07/25] fix: operator |= on an FSM and itself overruns the
 transition table

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 66baa2d..7da6f0a 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -503,6 +503,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this |= Fsm(rhs);
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From 8a849d8df49d62501639a819c5ec057f7a677d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 08/25] fix: Import() leaves the FSM marked as sparsed with no
 letter classes

---
 pire/fsm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 7da6f0a..7e266d3 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -425,6 +425,7 @@ void Fsm::Import(const Fsm& rhs)
 		tags.insert(ymake_pair(tag.first + oldsize, tag.second));
 
 	letters = LettersTbl(LettersEquality(m_transitions));
+	m_sparsed = false;
 }
 
 void Fsm::Connect(size_t from, size_t to, Char c /* = Epsilon */)
-- 
2.43.0


From 5c221e49b7435d7a65a5b60af8644482b4ab1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 09/25] fix: RemoveDeadEnds() leaves an incomplete FSM marked
 as determined

---
 pire/fsm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 7e266d3..445bb2a 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -706,6 +706,8 @@ void Fsm::RemoveDeadEnds()
 	PIRE_IFDEBUG(Cdbg << "Removing dead ends on:" << Endl << *this << Endl);
 
 	TSet<size_t> dead = DeadStates();
+	// Not every letter has a transition any more
+	determined = false;
 	// Erase all useless states
 	for (auto&& i : dead) {
 		PIRE_IFDEBUG(Cdbg << "Removing useless state " << i << Endl);
-- 
2.43.0


From 38c2bb099167a52efdbac020cb6e32123049c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 10/25] fix: MakeSuffix() starts in unreachable states, starts
 over in the initial state, and leaves the FSM marked as determined

---
 pire/fsm.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 445bb2a..ca31a06 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -601,9 +601,15 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	// A word that starts in a useless state is no suffix of anything
+	TSet<size_t> dead = DeadStates();
+	// Nor may a suffix start over when it comes back to the initial state
+	size_t newInitial = Resize(Size() + 1);
+	for (size_t i = 0; i < newInitial; ++i)
+		if (dead.find(i) == dead.end())
+			Connect(newInitial, i);
+	initial = newInitial;
+	determined = false;
 	ClearHints();
 }
 	
-- 
2.43.0


From 99b3554838aeccbb2c27d608f52c59c9c68dad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 11/25] fix: Complement() leaves letter classes in an FSM that
 is no longer determined, so that Append() to it loses transitions

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index ca31a06..3df30e1 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -571,6 +571,9 @@ Fsm& Fsm::Complement()
 	if (!Determine())
 		throw Error("Regexp pattern too complicated");
 	Minimize();
+	// The result is built upon letters again, not letter classes
+	Unsparse();
+	letters = LettersTbl(LettersEquality(m_transitions));
 	Resize(Size() + 1);
 	for (size_t i = 0; i < Size(); ++i)
 		if (!IsFinal(i))
-- 
2.43.0


From d393927cf9fa09250114682b739913c2adc557d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 12/25] fix: Minimize() merges states that differ in tags or
 outputs of transitions and loses outputs

---
 pire/fsm.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 3df30e1..2104435 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -1064,14 +1064,25 @@ public:
 	{
 		Y_ASSERT(mFsm.IsDetermined());
 
-		TMap<bool, size_t> FinalStateClassMap;
+		// States which differ in what they report (finality, tags, outputs of transitions) are never equivalent
+		typedef TMap<Char, unsigned long> LetterOutputs;
+		typedef ypair< ypair<bool, unsigned long>, LetterOutputs > Payload;
+		TMap<Payload, size_t> PayloadClassMap;
 
 		for (size_t state = 0; state < mFsm.Size(); ++state) {
 			reversedTransitions[state].resize(mFsm.Letters().Size());
-			if (FinalStateClassMap.find(mFsm.IsFinal(state)) == FinalStateClassMap.end()) {
-				FinalStateClassMap[mFsm.IsFinal(state)] = Classes++;
+			Payload payload(ymake_pair(mFsm.IsFinal(state), mFsm.Tag(state)), LetterOutputs());
+			if (mFsm.outputs.find(state) != mFsm.outputs.end())
+				for (auto&& transition : mFsm.m_transitions[state]) {
+					unsigned long output = mFsm.Output(state, *transition.second.begin());
+					if (output)
+						payload.second[transition.first] = output;
+				}
+			if (PayloadClassMap.find(payload) == PayloadClassMap.end()) {
+				PayloadClassMap[payload] = Classes;
+				++Classes;
 			}
-			StateClass[state] = FinalStateClassMap[mFsm.IsFinal(state)];
+			StateClass[state] = PayloadClassMap[payload];
 		}
 
 		for (size_t state = 0; state < mFsm.Size(); ++state) {
@@ -1141,7 +1152,7 @@ public:
 		// Restore outputs
 		for (auto&& output : mFsm.outputs)
 			for (auto&& output2 : output.second)
-				mNewFsm.outputs[StateClass[output.first]].insert(ymake_pair(StateClass[output2.first], output2.second));
+				mNewFsm.outputs[StateClass[output.first]][StateClass[output2.first]] |= output2.second;
 	}
 
 	typedef bool Result;
-- 
2.43.0


From 61d411bc988e0d5fbd3cd8841be2b5e8e719ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 13/25] fix: RemoveEpsilons() loses outputs attached to chains
 of epsilon transitions

---
 pire/fsm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 2104435..82efe0a 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -789,14 +789,14 @@ void Fsm::ShortCutEpsilon(size_t from, size_t thru, TVector< TSet<size_t> >& inv
 {
 	PIRE_IFDEBUG(Cdbg << "In Fsm::ShortCutEpsilon(" << from << ", " << thru << ")\n");
 	const StatesSet& to = Destinations(thru, Epsilon);
-	Outputs::iterator outIt = outputs.find(from);
 	unsigned long fromThruOut = Output(from, thru);
 	for (auto&& toElement : to) {
 		PIRE_IFDEBUG(Cdbg << "Epsilon connecting " << from << " --> " << thru << " --> " << toElement << "\n");
 		Connect(from, toElement, Epsilon);
 		inveps[toElement].insert(from);
-		if (outIt != outputs.end())
-			outIt->second[toElement] |= (fromThruOut | Output(thru, toElement));
+		unsigned long out = fromThruOut | Output(thru, toElement);
+		if (out)
+			outputs[from][toElement] |= out;
 	}
 }
 
-- 
2.43.0


From 76501596cd8c83729426e976edf0e83066ae537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 14/25] fix: CreateApproxFsm() allows no insertion in a state
 without outgoing transitions

---
 pire/approx_matching.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 23f74ca..500c93c 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -53,10 +53,10 @@ namespace Pire {
 
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
+				}
 
-					for (Char ch = 0; ch < MaxChar; ++ch) {
-						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
-					}
+				for (Char ch = 0; ch < MaxChar; ++ch) {
+					approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 				}
 
 				if (regexp.IsFinal(state)) {
-- 
2.43.0


From 258baaefd3ccbd2320bbc2c24db60d71dd7a1190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 15/25] fix: BitSet::Resize() leaves the old terminator and
 stale bits set and does not update the size

---
 pire/vbitset.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pire/vbitset.h b/pire/vbitset.h
index 3c33781..7f8da6e 100644
--- a/pire/vbitset.h
+++ b/pire/vbitset.h
@@ -48,6 +48,7 @@ public:
 
 	BitSet()
 		: m_data(1, 1)
+		, m_size(0)
 	{
 	}
 	BitSet(size_t size)
@@ -84,10 +85,11 @@ public:
 
 	void Resize(size_t newsize)
 	{
+		m_data[RoundDown(m_size)] &= ~(1U << Remainder(m_size)); // Not a terminator anymore
 		m_data.resize(RoundUp(newsize + 1));
-		if (Remainder(newsize) && !m_data.empty())
-			m_data[m_data.size() - 1] &= ((1U << Remainder(newsize)) - 1); // Clear tail
+		m_data[RoundDown(newsize)] &= ((1U << Remainder(newsize)) - 1); // Clear tail
 		m_data[RoundDown(newsize)] |= (1U << Remainder(newsize));
+		m_size = newsize;
 	}
 
 	/// Resets all bits to 0.
-- 
2.43.0


From 12c58ca3cc4bf746ad81cec4d5fac796a7f8d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 16/25] fix: HalfFinalScanner takes repetition counts for state
 flags

---
 pire/scanners/half_final.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/scanners/half_final.h b/pire/scanners/half_final.h
index 5aca343..8e6d87d 100644
--- a/pire/scanners/half_final.h
+++ b/pire/scanners/half_final.h
@@ -48,7 +48,11 @@ public:
 
 	explicit HalfFinalScanner(const HalfFinalFsm& fsm) {
 		Scanner::Init(fsm.GetFsm().Size(), fsm.GetFsm().Letters(), fsm.GetTotalCount(), fsm.GetFsm().Initial(), 1);
-		BuildScanner(fsm.GetFsm(), *this);
+		// Tags of a counting fsm are repetition counts (used by BuildFinals()), not state flags
+		Fsm untagged(fsm.GetFsm());
+		for (size_t state = 0; state < untagged.Size(); ++state)
+			untagged.SetTag(state, 0);
+		BuildScanner(untagged, *this);
 		BuildFinals(fsm);
 	}
 
-- 
2.43.0


From bd36b9a7d5bb0da4dfa5404187ca64832c0937c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 17/25] fix: HalfFinalFsm::Compile returns nothing

---
 pire/half_final_fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 83828f8..2e14ed8 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -43,6 +43,6 @@ namespace Pire {
 
 	template<class Scanner>
 	Scanner HalfFinalFsm::Compile() const {
-		auto scanner = Scanner(*this);
+		return Scanner(*this);
 	}
 }
-- 
2.43.0


From 6bc0971074dae10850832143b50152b231d1db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 18/25] fix: loading a truncated scanner goes unnoticed

LoadPodType() and LoadPodArray() do not look at how much was read, so that
a scanner loaded from a truncated stream consists of garbage.
---
 pire/stub/saveload.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..0b6ace1 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -150,6 +150,8 @@ namespace Pire {
 	void LoadPodType(yistream* s, T& t)
 	{
 		s->read((char*) &t, sizeof(t));
+		if (static_cast<size_t>(s->gcount()) != sizeof(t))
+			throw Error("EOF reached while loading serialized data");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -167,6 +169,8 @@ namespace Pire {
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
 		s->read((char*) t, len * sizeof(*t));
+		if (static_cast<size_t>(s->gcount()) != len * sizeof(*t))
+			throw Error("EOF reached while loading serialized data");
 	}
 };
 
-- 
2.43.0


From 72715842f5776ead235c87386a980effdb6b4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 19/25] fix: truncated scanner images are mapped

AlignPtr() takes words for bytes, and Mmap() reads the emptiness flag and
skips its padding without looking at how much is left, so that the remaining
size wraps around and the rest of the image is taken from beyond its end.
---
 pire/align.h           | 5 +++--
 pire/scanners/common.h | 4 +++-
 pire/scanners/multi.h  | 7 +++----
 pire/scanners/simple.h | 7 +++----
 pire/scanners/slow.h   | 7 +++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..8aa60b0 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,10 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				size_t delta = (const char*) next - (const char*) p;
+				if (delta > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= delta;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/common.h b/pire/scanners/common.h
index f01658d..6cef1b7 100644
--- a/pire/scanners/common.h
+++ b/pire/scanners/common.h
@@ -80,6 +80,8 @@ namespace Pire {
 	namespace Impl {
 		inline const void* AdvancePtr(const size_t*& ptr, size_t& size, size_t delta)
 		{
+			if (size < delta)
+				throw Error("EOF reached while mapping a scanner");
 			ptr = (const size_t*) ((const char*) ptr + delta);
 			size -= delta;
 			return (const void*) ptr;
@@ -88,7 +90,7 @@ namespace Pire {
 		template<class T>
 		inline void MapPtr(T*& field, size_t count, const size_t*& p, size_t& size)
 		{
-			if (size < count * sizeof(*field))
+			if (size / sizeof(*field) < count)
 				throw Error("EOF reached while mapping Pire::SlowScanner");
 			field = (T*) p;
 			Impl::AdvancePtr(p, size, count * sizeof(*field));
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 85292a9..666dd67 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,11 +260,10 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			if (size < s.BufSize())
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..802053e 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,11 +133,10 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			if (size < s.BufSize())
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..9044c25 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,11 +181,10 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			s.m_vecptr = 0;
-- 
2.43.0


From 923c34a464011b0fbaaa8e609b34b942c76388c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 20/25] fix: mapping an empty scanner's image leaves the old
 scanner in place

SimpleScanner and SlowScanner only swapped the mapped scanner in when it was
not empty; SlowScanner also forgot that the scanner needs actions.
---
 pire/scanner_io.cpp    | 3 ++-
 pire/scanners/simple.h | 6 +++---
 pire/scanners/slow.h   | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..b6d5e92 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -118,10 +118,11 @@ void SlowScanner::Load(yistream* s)
 	bool empty;
 	LoadPodType(s, empty);
 	Impl::AlignLoad(s, sizeof(empty));
-	sc.need_actions = need_actions;
 	if (empty) {
 		sc.Alias(Null());
+		sc.need_actions = need_actions;
 	} else {
+		sc.need_actions = need_actions;
 		sc.m_vec.resize(sc.m.lettersCount * sc.m.statesCount);
 		if (sc.need_actions)
 			sc.m_actionsvec.resize(sc.m.lettersCount * sc.m.statesCount);
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 802053e..90263f9 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -142,11 +142,11 @@ public:
 			if (size < s.BufSize())
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
+			Impl::AdvancePtr(p, size, s.BufSize());
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
 		}
+
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 9044c25..a05528e 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -194,8 +194,9 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
+		s.need_actions = need_actions;
+		Swap(s);
 		return (const void*) p;
 	}
 
-- 
2.43.0


From 2cf7d394515448a614d84f2db9df4c570587e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:30 +0000
Subject: [PATCH 21/25] fix: a copy of an empty SlowScanner dereferences null

An empty scanner is an alias of the in-memory null scanner, its copy was taken
for a mapped one, with no tables at all.
---
 pire/scanners/slow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index a05528e..6c5929e 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -235,7 +235,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
-- 
2.43.0


From 91586779e00c06a108ca452bf994007d7f495a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 22/25] fix: a mapped scanner cannot be saved

Save() wrote the buffer that only an in-memory scanner has (null for a mapped
one), or the vectors of an in-memory SlowScanner.
---
 pire/scanner_io.cpp   | 17 ++++++++++++-----
 pire/scanners/multi.h |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index b6d5e92..6b6add5 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -42,10 +42,8 @@ void SimpleScanner::Save(yostream* s) const
 	Impl::AlignSave(s, sizeof(mc));
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
-	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
-	}
+	if (!Empty())
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 }
 
 void SimpleScanner::Load(yistream* s)
@@ -77,10 +75,19 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
 
+		if (!m_vecptr) {
+			// mmap()-ed scanner
+			size_t positions = m.statesCount * m.lettersCount;
+			Impl::AlignedSaveArray(s, m_jumpPos, positions + 1);
+			Impl::AlignedSaveArray(s, m_jumps, m_jumpPos[positions]);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, m_jumpPos[positions]);
+			return;
+		}
+
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
 		for (auto&& i : m_vec) {
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 666dd67..682c2cc 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -568,7 +568,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From 968cecdab697e57833bd9e87b45e58a02304cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 23/25] fix: Scanner::Load() accepts data of another relocation
 type

Mmap() checks the relocation signature, Load() did not.
---
 pire/scanners/multi.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 682c2cc..34f132b 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -580,6 +580,8 @@ struct ScannerSaver {
 		Impl::ValidateHeader(s, ScannerIOTypes::Scanner, sizeof(sc.m));
 		LoadPodType(s, sc.m);
 		Impl::AlignLoad(s, sizeof(sc.m));
+		if (Relocatable::Signature != sc.m.relocationSignature)
+			throw Error("Type mismatch while loading Pire::Scanner");
 		if (Shortcutting::Signature != sc.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		bool empty;
-- 
2.43.0


From 7a68f1f05e63752c5d1eeebd1e46d9c3383c9371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:45 +0000
Subject: [PATCH 24/25] fix: NoGlueLimitCountingScanner loads and maps
 truncated data

Load() replaced the scanner before it had read the actions, and kept the
compatibility mode of the old one; Mmap() looked at the actions without
knowing how much data was left.
---
 pire/extra/count.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..dad561c 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1018,33 +1018,35 @@ void NoGlueLimitCountingScanner::Save(yostream* s) const {
 }
 
 void NoGlueLimitCountingScanner::Load(yistream* s) {
+	NoGlueLimitCountingScanner scanner;
 	ui32 type;
-	LoadedScanner::Load(s, &type);
+	scanner.LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		LoadPodType(s, actionsSize);
 
-		if (actionsSize == 0) {
-			ActionsBuffer.reset();
-			Actions = nullptr;
-		} else {
-			ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
-			ActionsBuffer[0] = actionsSize;
-			LoadPodArray(s, &ActionsBuffer[1], actionsSize - 1);
-			Actions = ActionsBuffer.get();
+		if (actionsSize != 0) {
+			scanner.ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
+			scanner.ActionsBuffer[0] = actionsSize;
+			LoadPodArray(s, &scanner.ActionsBuffer[1], actionsSize - 1);
+			scanner.Actions = scanner.ActionsBuffer.get();
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		scanner.AdvancedScannerCompatibilityMode = true;
 	}
+	Swap(scanner);
 }
 
 const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	NoGlueLimitCountingScanner scanner;
 	ui32 type;
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
+	size -= reinterpret_cast<const char*>(p) - static_cast<const char*>(ptr);
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+		if (size < sizeof(ActionIndex))
+			throw Error("EOF reached while mapping Pire::NoGlueLimitCountingScanner");
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
-- 
2.43.0


From 4de065e0978bdbc708d60e2cff155c326b1e7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:06 +0000
Subject: [PATCH 25/25] fix: gluing with a big size limit overruns the lookup
 table

GluedStateLookupTable::Search() returns -1 when the table is full.
---
 pire/scanners/multi.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 34f132b..d7ee8ec 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -1104,8 +1104,11 @@ Impl::Scanner<Relocation, Shortcutting> Impl::Scanner<Relocation, Shortcutting>:
 		return lhs;
 	
 	static const size_t DefMaxSize = 80000;
-	Impl::ScannerGlueTask< Impl::Scanner<Relocation, Shortcutting> > task(lhs, rhs);
-	return Impl::Determine(task, maxSize ? maxSize : DefMaxSize);
+	typedef Impl::ScannerGlueTask< Impl::Scanner<Relocation, Shortcutting> > Task;
+	// The lookup table needs free entries, and the initial state does not count
+	static const size_t TableMaxSize = Task::InvStates::MaxSize - 3;
+	Task task(lhs, rhs);
+	return Impl::Determine(task, ymin(maxSize ? maxSize : DefMaxSize, TableMaxSize));
 }
 
 
-- 
2.43.0

