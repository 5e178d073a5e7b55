From a1ed17b8f8503375d1e4ff2b3655ce6a310cad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 01/46] fix: DFA minimisation must not merge accepting with
 non-accepting states

---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..cc5f841 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,7 +18,6 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
@@ -28,6 +27,10 @@ public:
 	{
 		return m_accept;
 	}
+	bool operator==(const DFAState<TCHAR>& s) const
+	{
+		return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+	}
 	virtual void print(std::wostream& os, int from) const override
 	{
 		for (const auto& t : m_transitions)
-- 
2.43.0


From 61060384109e245e9cdbac8579100a2df606616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/46] fix: adding a range to a character class keeps its
 ranges sorted and disjoint

---
 src/core/CharClass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..6bd5f13 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -126,7 +126,7 @@ public:
     {
         for (wchar_t ch : ch_list)
         {
-            m_ranges.push_back(Range<TCHAR>(ch, ch + 1));
+            *this |= Range<TCHAR>(ch, ch + 1);
         }
     }
     CharClass(wchar_t start, wchar_t end)
@@ -195,7 +195,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From e937059e76efe20d49adbf841ac59bdb652693c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 03/46] fix: union of character classes keeps the ranges merged
 so far

---
 src/core/CharClass.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..5b0d4ca 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -137,13 +137,13 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
     {
         if (ri < rj)
         {
-            new_class.m_ranges.push_back(ri);
+            new_class.append(ri);
             if (++i != m_ranges.cend())
                 ri = *i;
         }
         else if (ri > rj)
         {
-            new_class.m_ranges.push_back(rj);
+            new_class.append(rj);
             if (++j != cc.m_ranges.cend())
                 rj = *j;
         }
@@ -164,8 +164,18 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
         }
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
+    while (i != m_ranges.cend())
+    {
+        new_class.append(ri);
+        if (++i != m_ranges.cend())
+            ri = *i;
+    }
+    while (j != cc.m_ranges.cend())
+    {
+        new_class.append(rj);
+        if (++j != cc.m_ranges.cend())
+            rj = *j;
+    }
 
     return new_class;
 }
-- 
2.43.0


From eb2ba16ce4639fca0c1da019f944d3a617012ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 04/46] fix: complement of a character class that starts at
 character 0

---
 src/core/CharClass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 6bd5f13..0581e10 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -171,9 +171,9 @@ public:
 
 		if (i != m_ranges.cend())
 		{
-			if (i->start() == 1)
+			if (i->start() <= 1)
 			{
-				last_end = i->end();
+				last_end = std::max(last_end, i->end());
 				i++;
 			}
 		}
-- 
2.43.0


From 151c1abd9054adb52a19c9136f0d6cbb29123eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 05/46] fix: the '.' pattern must not match the NUL that
 terminates the input

---
 src/core/CharClass.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 0581e10..fa639c1 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -156,7 +156,8 @@ public:
     }
     static CharClass<TCHAR> make_star()
     {
-        return CharClass<TCHAR>(0, std::numeric_limits<TCHAR>::max());
+        //The NUL character terminates the input and must not be matched
+        return CharClass<TCHAR>(1, std::numeric_limits<TCHAR>::max());
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From ca87e4c42f02fac2cc929e50226882c8e7ee6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 06/46] fix: skipping an optional group must not enter a loop
 at its end

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..8d6f7d8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -567,15 +567,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From 068a00f5e5981cd79da54791083983c2fbfa4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 07/46] fix: nullable loops in a regular expression must not
 recurse forever

---
 src/core/NFA.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 8d6f7d8..03ac4dc 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -634,8 +634,9 @@ public:
     }
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
-        //Always include myself
-        closure.insert(index);
+        //Always include myself; stop at a state which has been visited already (epsilon cycle)
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
@@ -673,27 +674,26 @@ public:
      */
     bool run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
     {
-        if (index == m_states.size() - 1 && seq.size() == input_pos)
-        {
-            return true;
-        }
-        else
+        bool long_flag = false;
+        std::set<int> current = epsilon_closure(index, long_flag);
+
+        for (; input_pos < seq.size() && !current.empty(); input_pos++)
         {
-            for (const auto& tr : get_transitions(index))
+            std::set<int> next;
+
+            for (int i : current)
             {
-                if (tr.is_epsilon())
+                for (const auto& tr : get_transitions(i))
                 {
-                    if (run(seq, tr.dest(), input_pos))
-                        return true;
-                }
-                else if (tr.label().includes(seq[input_pos]))
-                {
-                    if (run(seq, tr.dest(), input_pos + 1))
-                        return true;
+                    if (tr.label().includes(seq[input_pos]))
+                        next.insert(tr.dest());
                 }
             }
-            return false;
+
+            current = epsilon_closure(next, long_flag);
         }
+
+        return current.count(m_states.size() - 1) > 0;
     }
     /*!
     * @brief Add a transition to a new state from the final state.
-- 
2.43.0


From fc263f331e06966c7143911be7962b1b130d139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 08/46] fix: moving a grammar must keep its rule names

---
 src/core/Grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..0fa0aa9 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,7 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id), m_grammar_name(old.m_grammar_name), m_options(std::move(old.m_options))
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From b5685808338175dfa8bfa274a57a2ea3cc468ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/46] fix: an unterminated include path must be rejected
 instead of looping forever

---
 src/core/Grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..c1f3f62 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(ch);
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From 894982f13392efe963868fcb38791b5aa78453ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 10/46] fix: a repeated rule definition must not leave a gap in
 the rule numbers

---
 src/core/Grammar.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index c1f3f62..77bd9e7 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -113,14 +113,18 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
+            //The first definition of a rule takes effect; a repeated one must not consume an ID
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                machine_id++;
 
-            m_identifiers.push_back(id);
+                m_identifiers.push_back(id);
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From b7f2557d8b1ca1248a63d858a0f78f119d7e5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 11/46] fix: a grammar file that cannot be opened must be
 reported, not read as empty

---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 77bd9e7..8650885 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -45,6 +45,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
     std::wifstream grammar_file(filename, std::ios::in);
 
+    if (!grammar_file)
+        throw SimpleException(std::string("Cannot open grammar file ") + filename);
+
     std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
 
     Stream stream(std::move(grammar_str));
-- 
2.43.0


From 29f46cd5ceb1bba410127f163a876fa450460c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 12/46] fix: a non-ASCII character must not silently cut off
 the rest of a grammar

---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 8650885..2a05792 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -48,6 +48,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
     if (!grammar_file)
         throw SimpleException(std::string("Cannot open grammar file ") + filename);
 
+    //Without a UTF-8 locale, reading would stop silently at the first non-ASCII character
+    grammar_file.imbue(std::locale(std::locale::classic(), new std::codecvt_utf8<wchar_t>()));
+
     std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
 
     Stream stream(std::move(grammar_str));
-- 
2.43.0


From ab41019b946f785df4691ba5452b8fc4e5489836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 13/46] fix: lookahead construction must terminate on nullable
 loops and right recursion

---
 src/core/CompositeATN.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..6e848e6 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -67,9 +67,9 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
 
                 if (dest_node.is_terminal())
                 {
-                    closure.emplace(dest_path, color, new_priority);
-
-                    build_closure_exclusive(closure, dest_path, color, stack, new_priority);
+                    //An element which is already there has been explored (epsilon loops and right recursion come back to it)
+                    if (closure.emplace(dest_path, color, new_priority).second)
+                        build_closure_exclusive(closure, dest_path, color, stack, new_priority);
                 }
                 else
                 {
@@ -91,9 +91,8 @@ void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const AT
 
     if (node.is_terminal())
     {
-        closure.emplace(path, color, priority);
-
-        build_closure_exclusive(closure, path, color, stack, priority);
+        if (closure.emplace(path, color, priority).second)
+            build_closure_exclusive(closure, path, color, stack, priority);
     }
     else
     {
-- 
2.43.0


From 694528c12b1e05131fc4ae9d0512c0f8ffdb2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 14/46] fix: a loop at the end of a pattern must not count as
 an alternative of the grammar

---
 src/core/CompositeATN.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..1581f0d 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -129,7 +129,8 @@ private:
             m_nodes.emplace_back();
             m_nodes.back().import_transitions(nfa.get_state(i), offset);
         }
-        return m_nodes.size() - 1;
+        //The final state of the NFA may have transitions of its own, which are not alternatives of the ATN node
+        return add_node(CharClass<TCHAR>(), m_nodes.size() - 1, 0);
     }
     int import_nonterminal(const Identifier& id, int origin, int tag)
     {
-- 
2.43.0


From afa3fb32d263f91968dc5cecde0598bac677b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 15/46] fix: an empty literal must not misdirect the lookahead
 graph

---
 src/core/CompositeATN.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 1581f0d..7f32bb7 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -112,6 +112,10 @@ private:
     }
     int import_literal_terminal(const std::basic_string<TCHAR>& literal, int origin, int tag)
     {
+        //An empty literal needs a node too, for others to point to
+        if (literal.empty())
+            origin = add_node(CharClass<TCHAR>(), origin, tag);
+
         for (TCHAR ch : literal)
         {
             origin = add_node(CharClass<TCHAR>(ch, ch + 1), origin, tag);
-- 
2.43.0


From 056cc24ce0be21424944e4fc216fba43a2fd0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 16/46] fix: optimising a grammar must keep the ranks of an
 ordered choice

---
 src/core/ATN.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..cf6277b 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -376,9 +376,27 @@ public:
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+
+                    int tag = 0;
+                    for (const auto& t : origin.get_transitions())
+                    {
+                        if (t.dest() == i)
+                            tag = t.tag();
+                    }
+
+                    //A ranked choice must not be mixed up with the other alternatives of the origin
+                    bool ranked = false;
+                    for (const auto& t : node.get_transitions())
+                    {
+                        if (t.tag() != 0)
+                            ranked = true;
+                    }
+                    if (ranked && (tag != 0 || origin.get_transitions().size() > 1))
+                        continue;
+
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(ATNTransition<TCHAR>(t.type(), t.dest(), tag + t.tag()));
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From 709eb57138c884b9d5f72605d2734ef923f24006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 17/46] fix: reducing the root must not look below the bottom
 of the tag stack

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..8760d3e 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From 075a347f9b43a5482920e545dfc8b886bb57be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 18/46] fix: every worker must close the descriptor of the
 shared memory it maps

---
 src/core/BaseRunner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..dc4adcf 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -250,7 +250,7 @@ protected:
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
-    if (is_allocating) close(fd);
+    close(fd);
 #endif
   }
   void release_memory(bool is_finalizing)
-- 
2.43.0


From ebfc391f17ec58cc0e58d920783e72c90fa0005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 19/46] fix: an input that fills its last page, or an empty
 one, must not be overrun

---
 src/core/BaseRunner.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index dc4adcf..1136b8e 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -147,7 +147,12 @@ public:
         fstat(fd, &sb);
         m_input_size = sb.st_size;
 
-        m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
+        //The parser stops at a NUL character and reads ahead by up to 16 bytes,
+        //so there must be a page of zeros behind the input (even if the input is empty)
+        m_input_window = mmap(NULL, get_input_window_size(), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+
+        if (m_input_size > 0)
+            mmap(const_cast<void *>(m_input_window), m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
 
         close(fd);
 
@@ -161,7 +166,7 @@ public:
 #if defined(CENTAURUS_BUILD_WINDOWS)
         UnmapViewOfFile(m_input_window);
 #elif defined(CENTAURUS_BUILD_LINUX)
-        munmap(const_cast<void *>(m_input_window), m_input_size);
+        munmap(const_cast<void *>(m_input_window), get_input_window_size());
 #endif
 	}
 public:
@@ -237,6 +242,14 @@ private:
 #endif
   }
 
+#if defined(CENTAURUS_BUILD_LINUX)
+  size_t get_input_window_size() const
+  {
+    size_t page_size = sysconf(_SC_PAGESIZE);
+    return ALIGN_NEXT(m_input_size, page_size) + page_size;
+  }
+#endif
+
 protected:
   void acquire_memory(bool is_allocating)
   {
-- 
2.43.0


From 33e438d612544e4d6a585dbfbd6342346d9c9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 20/46] fix: captured result chunks must be released with their
 runner

---
 src/core/Stage1Runner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index d092600..c9b527d 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -98,6 +98,9 @@ public:
   virtual ~Stage1Runner() {
     close_semaphore(true);
     release_memory(true);
+    for (const auto& chunk : result_chunks_) {
+      delete[] reinterpret_cast<const char*>(chunk.begin());
+    }
   }
 
   virtual void start() override
-- 
2.43.0


From 4b673aac4b041e20bd9c3479c54f1b7d9b11a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 21/46] fix: CR LF and CR must end a line comment and count as
 line breaks

---
 src/core/Stream.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..ab96fc5 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -90,16 +90,15 @@ public:
             }
             if (ch == L'\r')
             {
-                if (m_cur == m_str.end())
-                    return L'\n';
-                if (*m_cur == L'\n')
+                //Both CR LF and a lone CR are read as one line break
+                if (m_cur != m_str.end() && *m_cur == L'\n')
                 {
-                    m_newline_flag = true;
                     m_pos++;
                     m_cur++;
                 }
+                ch = L'\n';
             }
-            else if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
+            if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
             {
                 m_newline_flag = true;
             }
-- 
2.43.0


From 8123c99f73e2fca4c427e73895306c8f68848a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 22/46] fix: an error at the start of a line must be reported
 on that line

---
 src/core/Stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index ab96fc5..079f925 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -183,7 +183,10 @@ public:
     {
         std::ostringstream stream;
 
-        stream << "Line " << m_line << ", Pos " << m_pos << ": Unexpected character " << std::hex << (int)ch << std::dec;
+        //A line break which has been read ends its line, unless it is the unexpected character itself
+        int line = (m_newline_flag && ch != L'\n') ? m_line + 1 : m_line;
+
+        stream << "Line " << line << ", Pos " << m_pos << ": Unexpected character " << std::hex << (int)ch << std::dec;
 
         return StreamException(stream.str());
     }
-- 
2.43.0


From 47863715937b1954fee4c05ca32e5407fb1bb62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 23/46] fix: a terminal without an ID must not carry an
 uninitialised one

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index cf6277b..8a2f526 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From 9490b9478aa725e5c039875721b268cacd4c9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 24/46] fix: a grammar that includes itself must be rejected
 instead of exhausting the stack

---
 src/core/Grammar.cpp | 6 ++++++
 src/core/Grammar.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 2a05792..481cde8 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -115,7 +115,13 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             Encoder enc{};
 
+            //A file that includes itself must not exhaust the stack
+            if (m_include_depth >= 100)
+                throw SimpleException(std::string("Too deeply nested include in ") + filename);
+
+            m_include_depth++;
             machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            m_include_depth--;
         }
         else
         {
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 0fa0aa9..4826162 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -53,6 +53,7 @@ template<typename TCHAR> class Grammar : public IGrammar
     Identifier m_root_id;
 	Identifier m_grammar_name;
     GrammarOptions m_options;
+    int m_include_depth = 0;
 public:
     int parse(const char *filename, int machine_id = 1);
     int parse(const std::string& filename, int machine_id = 1);
-- 
2.43.0


From cbfa043dbeb5d9cb7b3354e34ac51154f6d73d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 25/46] fix: an invalid UTF-8 sequence must be rejected instead
 of ending the grammar

---
 src/core/Grammar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 481cde8..894c2c2 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -43,15 +43,15 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 template<typename TCHAR>
 int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
-    std::wifstream grammar_file(filename, std::ios::in);
+    std::ifstream grammar_file(filename, std::ios::in);
 
     if (!grammar_file)
         throw SimpleException(std::string("Cannot open grammar file ") + filename);
 
-    //Without a UTF-8 locale, reading would stop silently at the first non-ASCII character
-    grammar_file.imbue(std::locale(std::locale::classic(), new std::codecvt_utf8<wchar_t>()));
+    std::string grammar_bytes(std::istreambuf_iterator<char>(grammar_file), {});
 
-    std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
+    //Throws at an invalid UTF-8 sequence, where a wide stream would silently end the file
+    std::wstring grammar_str = std::wstring_convert<std::codecvt_utf8<wchar_t>, wchar_t>().from_bytes(grammar_bytes);
 
     Stream stream(std::move(grammar_str));
 
-- 
2.43.0


From 0a6afebc6441fb4faa2a0a92e5fda520f95e63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 26/46] fix: a lookahead path by the highest ranks must not be
 expelled as a lower-ranked one

---
 src/core/CompositeATN.hpp |  8 ++++++--
 src/core/Util.hpp         | 11 +++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 7f32bb7..64fe9b0 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -248,13 +248,17 @@ public:
     {
         int path_cmp = m_path.compare(e.m_path);
 
-        return path_cmp != 0 ? path_cmp < 0 : m_color < e.m_color;
+        if (path_cmp != 0) return path_cmp < 0;
+        if (m_color != e.m_color) return m_color < e.m_color;
+
+        //An element reached by the highest ranks only must not be taken for one which can be expelled
+        return m_priority.has_lower_rank() < e.m_priority.has_lower_rank();
     }
     bool operator==(const CATNClosureElement& e) const
     {
         int path_cmp = m_path.compare(e.m_path);
 
-        return path_cmp == 0 && m_color == e.m_color;
+        return path_cmp == 0 && m_color == e.m_color && m_priority.has_lower_rank() == e.m_priority.has_lower_rank();
     }
 };
 
diff --git a/src/core/Util.hpp b/src/core/Util.hpp
index d35c5df..a985ab1 100644
--- a/src/core/Util.hpp
+++ b/src/core/Util.hpp
@@ -280,6 +280,17 @@ public:
     {
         emplace_back(id, index, pr);
     }
+    /*!
+     * @brief Check if a lower-ranked alternative has been taken anywhere after the decision itself (the first element)
+     */
+    bool has_lower_rank() const
+    {
+        for (int i = 1; i < size(); i++)
+        {
+            if (this->operator[](i).priority() != 0) return true;
+        }
+        return false;
+    }
     bool is_superior_to(const PriorityChain& chain) const
     {
         return compare(chain) < 0;
-- 
2.43.0


From 899e154510f82efcd2337e8abfb19674fba3a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 27/46] fix: ranks must be compared only as long as two
 lookahead paths agree

---
 src/core/Util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Util.hpp b/src/core/Util.hpp
index a985ab1..d7e5523 100644
--- a/src/core/Util.hpp
+++ b/src/core/Util.hpp
@@ -253,6 +253,9 @@ class PriorityChain : private std::vector<PriorityChainElement>
 
             if (p < q) return -1;
             if (p > q) return +1;
+
+            //The paths have parted here, so that later elements are not about the same decision
+            if (p.id() != q.id() || p.index() != q.index()) return 0;
         }
         return 0;
     }
-- 
2.43.0


From 1055a5370d8d4b8c150001b9062b327f5a387ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 28/46] fix: a printed lookahead decision must be that of the
 given node

---
 src/core/Grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 894c2c2..e2f62d9 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -36,7 +36,7 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 {
     CompositeATN<TCHAR> catn(*this);
 
-    LookaheadDFA<TCHAR> ldfa(catn, path);
+    LookaheadDFA<TCHAR> ldfa(catn, catn.convert_atn_path(path));
 
     ldfa.print(os, path.leaf_id().str());
 }
-- 
2.43.0


From 39327aa35d47f28ee77fdab1a409fec01e01e558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 29/46] fix: the stacks of a chunk must be released once they
 are written to its buffer

---
 src/core/Stage2RunnerNonRecursive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 8760d3e..a7a837f 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -171,6 +171,7 @@ private:
     *it++ = tags.size();
     std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
     assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    delete ptr;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
-- 
2.43.0


From 397704c6e18d6aaa605301729ce73dc6646b7882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 30/46] fix: a deeply nested chunk must not be written beyond
 its buffer

---
 src/core/BaseRunner.hpp               |  4 +++
 src/core/Stage2RunnerNonRecursive.hpp | 23 ++++++-------
 src/core/Stage3RunnerNonRecursive.hpp | 49 +++++++++++++--------------
 3 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 1136b8e..1835dc3 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -18,6 +18,10 @@ class CSTMarker
 	uint64_t m_value;
 public:
 	CSTMarker(uint64_t value) : m_value(value) {}
+	static CSTMarker make_sv_marker(int count)
+	{
+		return CSTMarker(((uint64_t)1 << 63) | (uint64_t)count);
+	}
 	int get_machine_id() const
 	{
 		return (m_value >> 48) & 0x7FFF;
diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index a7a837f..6dfc7fa 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -158,19 +158,18 @@ private:
       }
     }
 #if PYCENTAURUS
+    //One word per entry of the stacks: the markers as they are, and a run of values as a value marker.
+    //There are never more of them than markers in the chunk, so they always fit in the bank.
     auto it = src;
-    *it++ = starts.size();
-    std::memcpy(it, starts.data(), starts.size()*sizeof(CSTMarker));
-    it += starts.size();
-    *it++ = ends.size();
-    std::memcpy(it, ends.data(), ends.size()*sizeof(CSTMarker));
-    it += ends.size();
-    *it++ = values.size();
-    std::memcpy(it, values.data(), values.size()*sizeof(semantic_value_type));
-    it += values.size();
-    *it++ = tags.size();
-    std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
-    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    auto starts_it = starts.cbegin();
+    auto ends_it   = ends.cbegin();
+    for (auto tag : tags) {
+      auto marker = (tag == detail::StackEntryTag::START_MARKER) ? *starts_it++
+                  : (tag == detail::StackEntryTag::END_MARKER)   ? *ends_it++
+                  : CSTMarker::make_sv_marker(static_cast<int>(tag));
+      std::memcpy(it++, &marker, sizeof(marker));
+    }
+    if (it != src + m_bank_size / 8) *it = 0;
     delete ptr;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 956fe0f..245aea1 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -31,19 +31,12 @@ private:
   semantic_value_type reduce()
   {
 #if PYCENTAURUS
-    auto bank_ptr = reinterpret_cast<uint64_t*>(acquire_bank());
-    assert(bank_ptr != nullptr);
-    std::vector<CSTMarker> starts(*bank_ptr++, CSTMarker(0));
-    std::memcpy(starts.data(), bank_ptr, starts.size()*sizeof(CSTMarker));
-    bank_ptr += starts.size();
-    std::vector<CSTMarker> ends(*bank_ptr++, CSTMarker(0));
-    assert(ends.empty());
-    std::vector<semantic_value_type> values(*bank_ptr++);
-    std::memcpy(values.data(), bank_ptr, values.size()*sizeof(semantic_value_type));
-    assert(values[0] == 0 && values.size() == 1);
-    bank_ptr += values.size();
-    std::vector<detail::StackEntryTag> tags(*bank_ptr++);
-    std::memcpy(tags.data(), bank_ptr, tags.size()*sizeof(detail::StackEntryTag));
+    std::vector<CSTMarker> starts, ends;
+    std::vector<semantic_value_type> values(1, 0);
+    std::vector<detail::StackEntryTag> tags;
+    merge_bank(reinterpret_cast<uint64_t*>(acquire_bank()), starts, values, tags);
+    assert(values.size() == 1);
+    values.front() = 0;
 #else
     auto bank_base_ptr = reinterpret_cast<std::tuple<std::vector<CSTMarker>,
                                                      std::vector<CSTMarker>,
@@ -61,21 +54,13 @@ private:
     void *current_bank;
     while ((current_bank = acquire_bank()) != nullptr) {
 #if PYCENTAURUS
-      auto bank_ptr = reinterpret_cast<uint64_t*>(current_bank);
-      detail::ConstPtrRange<CSTMarker> starts_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += starts_next.size() + 1;
-      detail::ConstPtrRange<CSTMarker> ends_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += ends_next.size() + 1;
-      detail::ConstPtrRange<semantic_value_type> values_next(bank_ptr + 1, bank_ptr[0]);
-      bank_ptr += values_next.size() + 1;
-      detail::ConstPtrRange<detail::StackEntryTag> tags_next(reinterpret_cast<detail::StackEntryTag*>(bank_ptr + 1), bank_ptr[0]);
+      merge_bank(reinterpret_cast<uint64_t*>(current_bank), starts, values, tags);
 #else
       auto& stack_tuple = **reinterpret_cast<std::decay<decltype(stack_tuple_base)>::type**>(current_bank);
       auto& starts_next = std::get<0>(stack_tuple);
       auto& ends_next   = std::get<1>(stack_tuple);
       auto& values_next = std::get<2>(stack_tuple);
       auto& tags_next   = std::get<3>(stack_tuple);
-#endif
       auto starts_next_it = starts_next.begin();
       auto ends_next_it   = ends_next.begin();
       auto values_next_it = values_next.begin();
@@ -96,10 +81,7 @@ private:
       }
       assert(starts_next_it == starts_next.end());
       assert(ends_next_it == ends_next.end());
-#if !PYCENTAURUS
       assert(values_next_it == values_next.end());
-#endif
-#if !PYCENTAURUS
       delete &stack_tuple;
 #endif
       release_bank();
@@ -115,6 +97,23 @@ private:
 #endif
     return result;
   }
+#if PYCENTAURUS
+  void merge_bank(const uint64_t *src, std::vector<CSTMarker>& starts, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
+  {
+    for (int i = 0; i < m_bank_size / 8; i++) {
+      if (src[i] == 0) break;
+      CSTMarker marker(src[i]);
+      if (marker.is_start_marker()) {
+        push_start_marker(marker, starts, tags);
+      } else if (marker.is_sv_marker()) {
+        append_value(src, static_cast<int>(marker.get_offset()), values, tags);
+      } else {
+        assert(!starts.empty());
+        reduce_by_end_marker(marker, starts, values, tags);
+      }
+    }
+  }
+#endif
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-- 
2.43.0


From f9ba8706a5e20cba7da3f16006861a85a474e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 31/46] fix: a Python context must be able to start again after
 it was stopped

---
 src/python/centaurus/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..0f90280 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -34,11 +34,11 @@ class SubprocessWorker:
     def __init__(self, context, core_affinity=-1):
         self.context = context
         self.master_pid = os.getpid()
-        self.proc = mp.Process(target=self.workloop)
         self.cmd_queue = mp.Queue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
+        self.proc = mp.Process(target=self.workloop)
         self.proc.start()
     def stop(self):
         self.cmd_queue.put(('stop', None))
-- 
2.43.0


From cbe44e8d7214d2b04a2ebcb6313f4dbcbe6f5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:58 +0000
Subject: [PATCH 32/46] fix: a Python parse must be over in every worker before
 its shared memory goes

---
 src/python/centaurus/context.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 0f90280..39a579e 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -17,13 +17,15 @@ class Stage1Worker(object):
     def parse(self, path):
         self.runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
         self.runner.start()
+    def wait(self):
+        self.runner.wait()
+        self.runner = None
     def start(self):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
     def stop(self):
         if self.runner:
-            self.runner.wait()
-            self.runner = None
+            self.wait()
     def attach(self, listener):
         pass
     def set_core_affinity(self, core_affinity):
@@ -35,6 +37,7 @@ class SubprocessWorker:
         self.context = context
         self.master_pid = os.getpid()
         self.cmd_queue = mp.Queue()
+        self.done_queue = mp.Queue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
@@ -45,6 +48,8 @@ class SubprocessWorker:
         self.proc.join()
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
+    def wait(self):
+        self.done_queue.get()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -62,6 +67,7 @@ class SubprocessWorker:
                 break
             elif cmd == 'parse':
                 self.parse_impl(arg)
+                self.done_queue.put(arg)
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -97,7 +103,11 @@ class Context(object):
     def parse(self, path):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        return self.drain.get()
+        result = self.drain.get()
+        # The Stage1 runner owns the shared memory, which every worker attaches to
+        for w in itertools.chain(self.parallel_workers, reversed(self.serial_workers)):
+            w.wait()
+        return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-- 
2.43.0


From d70752d4edb5084915d2bfbf621c1d73c5f5c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 33/46] model checking hook: the size of the parser's output
 pages can be chosen

Only with CENTAURUS_MODEL_CHECKING defined.
---
 src/core/CodeGenEM64T.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/CodeGenEM64T.hpp b/src/core/CodeGenEM64T.hpp
index 45101e9..59e3749 100644
--- a/src/core/CodeGenEM64T.hpp
+++ b/src/core/CodeGenEM64T.hpp
@@ -72,7 +72,11 @@ public:
 template<typename TCHAR>
 class ParserEM64T : public IParser
 {
+#if defined(CENTAURUS_MODEL_CHECKING)
+    static const int64_t& AST_BUF_SIZE;     //chosen by the model checker
+#else
     static constexpr int64_t AST_BUF_SIZE = 8 * 1024 * 1024;
+#endif
     asmjit::JitRuntime m_runtime;
     asmjit::CodeHolder m_code;
     static CharClass<TCHAR> m_skipfilter;
-- 
2.43.0


From b035910c6122c2edd9081463130f83cd41b833f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 34/46] fix: a character class of more than 8 ranges must not
 lose the rest in generated code

---
 src/core/CodeGenEM64T.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 677585d..19ae328 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -587,7 +587,8 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 
     for (auto i = transitions.begin(); i != transitions.end();)
     {
-        if (i->dest() == index && state.is_long())
+        //The filter has room for 8 ranges (4 ranges of wide characters)
+        if (i->dest() == index && state.is_long() && i->label().size() <= (sizeof(TCHAR) == 1 ? 8 : 4))
         {
             pool.load_charclass_filter(PATTERN2_REG, i->label());
 
-- 
2.43.0


From 83a3df3d30a4923dd62da8e85c2875069e1c2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 35/46] fix: generated code must call back with an aligned
 stack

---
 src/core/CodeGenEM64T.cpp      | 16 ++--------------
 src/core/CodeGenUtilsEM64T.hpp | 20 +++++++++++++-------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 19ae328..a6d1cc6 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -414,14 +414,8 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.sub(asmjit::x86::rsp, 32);
-#endif
         as.sfence();
-        as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        emit_aligned_call(as, (uint64_t)request_page);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
@@ -441,14 +435,8 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.sub(asmjit::x86::rsp, 32);
-#endif
         as.sfence();
-        as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        emit_aligned_call(as, (uint64_t)request_page);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
diff --git a/src/core/CodeGenUtilsEM64T.hpp b/src/core/CodeGenUtilsEM64T.hpp
index e1f72de..51cff8a 100644
--- a/src/core/CodeGenUtilsEM64T.hpp
+++ b/src/core/CodeGenUtilsEM64T.hpp
@@ -80,6 +80,18 @@ static void push_arg(asmjit::X86Assembler& as, T1 arg1, Ts... args)
 	as.push(arg1);
 }
 
+//The ABI wants the stack pointer to be a multiple of 16 at a call, but the depth of the generated code varies
+static void emit_aligned_call(asmjit::X86Assembler& as, uint64_t addr)
+{
+	as.mov(asmjit::x86::rbx, asmjit::x86::rsp);
+	as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
+#if defined(CENTAURUS_BUILD_WINDOWS)
+	as.sub(asmjit::x86::rsp, 32);
+#endif
+	as.call(addr);
+	as.mov(asmjit::x86::rsp, asmjit::x86::rbx);
+}
+
 template<typename T, typename... Ts>
 static void call_abs(asmjit::X86Assembler& as, T addr, Ts... args)
 {
@@ -89,13 +101,7 @@ static void call_abs(asmjit::X86Assembler& as, T addr, Ts... args)
 	if (sizeof...(args) >= 3) as.pop(ARG3_REG);
 	if (sizeof...(args) >= 4) as.pop(ARG4_REG);
 	
-#if defined(CENTAURUS_BUILD_WINDOWS)
-	as.sub(asmjit::x86::rsp, 32);
-#endif
-	as.call(reinterpret_cast<uint64_t>(addr));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-	as.add(asmjit::x86::rsp, 32);
-#endif
+	emit_aligned_call(as, reinterpret_cast<uint64_t>(addr));
 }
 
 static void emit_parser_prolog(asmjit::X86Assembler& as)
-- 
2.43.0


From 3532804cb7b94221c18792be681217f99f14d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 36/46] fix: a rule rejected in a callback must reject in the
 per-rule parser

---
 src/core/CodeGenEM64T.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index a6d1cc6..9b4fc76 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -269,6 +269,8 @@ void ChaserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const Grammar<TC
 			as.pop(STACK_BACKUP_REG);
 			as.pop(CONTEXT_REG);
             as.mov(INPUT_REG, asmjit::x86::rax);
+            as.cmp(INPUT_REG, 0);
+            as.jz(rejectlabel);
 			break;
 		}
 
-- 
2.43.0


From dc5930f43bd7474c521a03c46986e793aaeb9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 37/46] fix: the markers of a rejected input must not be
 followed by those of an earlier page

---
 src/core/CodeGenEM64T.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 9b4fc76..c545506 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -138,9 +138,23 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
         emit_machine(as, p.second, machine_map, catn, p.first, rejectlabel, pool);
     }
 
+    //The markers of a rejected input must not be followed by what was in the page before
+    as.bind(rejectlabel);
+    as.xor_(MARKER_REG, MARKER_REG);
+    asmjit::Label rejectfilllabel = as.newLabel();
+    as.bind(rejectfilllabel);
+    as.movnti(asmjit::X86Mem(OUTPUT_REG, 0), MARKER_REG);
+    as.add(OUTPUT_REG, asmjit::Imm(8));
+    as.cmp(OUTPUT_REG, OUTPUT_BOUND_REG);
+    as.jne(rejectfilllabel);
+    as.sfence();
+
+    asmjit::Label bailoutlabel = as.newLabel();
+    as.jmp(bailoutlabel);
+
     as.bind(finishlabel);
 
-    emit_parser_epilog(as, rejectlabel);
+    emit_parser_epilog(as, bailoutlabel);
 
     pool.embed();
 
-- 
2.43.0


From 7432f0884aff05ab925922098a9f6d6cdb411327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:04 +0000
Subject: [PATCH 38/46] fix: reducing a rule without values must not index
 beyond the value stack

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 6dfc7fa..c301590 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -80,7 +80,7 @@ protected:
 #if PYCENTAURUS
     auto new_val = m_listener(&sym, values.data(), value_count, m_listener_context);
 #else
-    auto new_val = m_listener(&sym, &values[values.size() - value_count], value_count, m_listener_context);
+    auto new_val = m_listener(&sym, values.data() + (values.size() - value_count), value_count, m_listener_context);
     values.resize(values.size() - value_count);
 #endif
     if (reduction_counter != nullptr) {
-- 
2.43.0


From c543fcf4704402faf6a53d57bde559934a135481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:27 +0000
Subject: [PATCH 39/46] fix: a Python parse of a rejected input must return

---
 src/python/centaurus/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 39a579e..858e79d 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -84,8 +84,8 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        assert len(adapter.values) <= 1
-        self.context.drain.put(adapter.values[0] if adapter.values else None)
+        # A rejected input leaves the values of the symbols that were complete by then
+        self.context.drain.put(adapter.values[0] if len(adapter.values) == 1 else None)
 
 class Context(object):
     bank_size = 8 * 1024 * 1024
-- 
2.43.0


From 786010875cbfda2f64ff03513790602cc8bd831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:27 +0000
Subject: [PATCH 40/46] fix: a grammar that cannot be loaded must raise an
 exception in Python, not end the process

---
 src/pydll/PyCentaurus.cpp       | 36 +++++++++++++++++++++++++++------
 src/python/centaurus/corelib.py |  6 ++++++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index eab4765..cf57f14 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -23,7 +23,15 @@ namespace Centaurus __attribute__((visibility("default")))
 {
 	CENTAURUS_EXPORT(IGrammar *) GrammarCreate(const char *filename)
 	{
-		return new Grammar<unsigned char>(filename);
+		//Exceptions must not leave a function that is called from Python
+		try
+		{
+			return new Grammar<unsigned char>(filename);
+		}
+		catch (const std::exception&)
+		{
+			return nullptr;
+		}
 	}
 
 	CENTAURUS_EXPORT(void) GrammarDestroy(IGrammar *grammar)
@@ -54,10 +62,17 @@ namespace Centaurus __attribute__((visibility("default")))
 
 		if (g_c)
 		{
-			if (dry)
-				return new DryParserEM64T<unsigned char>(*g_c);
-			else
-				return new ParserEM64T<unsigned char>(*g_c);
+			try
+			{
+				if (dry)
+					return new DryParserEM64T<unsigned char>(*g_c);
+				else
+					return new ParserEM64T<unsigned char>(*g_c);
+			}
+			catch (const std::exception&)
+			{
+				return nullptr;
+			}
 		}
 
 		return nullptr;
@@ -73,7 +88,16 @@ namespace Centaurus __attribute__((visibility("default")))
 		Grammar<unsigned char> *g_c = dynamic_cast<Grammar<unsigned char> *>(grammar);
 
 		if (g_c)
-			return new ChaserEM64T<unsigned char>(*g_c);
+		{
+			try
+			{
+				return new ChaserEM64T<unsigned char>(*g_c);
+			}
+			catch (const std::exception&)
+			{
+				return nullptr;
+			}
+		}
 
 		return nullptr;
 	}
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 19fcd01..d9f77c5 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -31,6 +31,8 @@ class Grammar(object):
 
     def __init__(self, filename):
         self.handle = CoreLib.GrammarCreate(filename.encode('utf-8'))
+        if not self.handle:
+            raise RuntimeError('Cannot load grammar file %s.' % filename)
         self.actions = []
         self.ids = {}
         CoreLib.GrammarEnumMachines(self.handle, EnumMachinesCallback(self.enum_machines_callback))
@@ -59,6 +61,8 @@ class Parser(object):
 
     def __init__(self, grammar, dry = False):
         self.handle = CoreLib.ParserCreate(grammar.handle, dry)
+        if not self.handle:
+            raise RuntimeError('Cannot generate a parser from the grammar.')
 
     def __del__(self):
         CoreLib.ParserDestroy(self.handle)
@@ -70,6 +74,8 @@ class Chaser(object):
 
     def __init__(self, grammar):
         self.handle = CoreLib.ChaserCreate(grammar.handle)
+        if not self.handle:
+            raise RuntimeError('Cannot generate a chaser from the grammar.')
 
     def __del__(self):
         CoreLib.ChaserDestroy(self.handle)
-- 
2.43.0


From 866aaa964e0e013496767db776fdf7a8158d0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:54 +0000
Subject: [PATCH 41/46] fix: a path to a node that does not exist must be
 reported

---
 src/core/ATN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 8a2f526..710567a 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -269,7 +269,7 @@ public:
     }
     const ATNNode<TCHAR>& get_node(int index) const
     {
-        return m_nodes[index];
+        return m_nodes.at(index);
     }
     int get_node_num() const
     {
-- 
2.43.0


From 0a8ec20f8314008e0c78fdfb4286b99506f12de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:54 +0000
Subject: [PATCH 42/46] fix: generate-catn without a grammar must not read an
 uninitialised variable

---
 src/tool/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 0d76de0..bd8edc3 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -39,7 +39,7 @@ int main(int argc, char *argv[])
     {
         GrammarFileSource,
         PatternStringSource
-    } source;
+    } source = GrammarFileSource;
 	enum
 	{
 		GenerateATN,
-- 
2.43.0


From dd544a620ed388c14b6c774b91dacafc9d3137d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:54 +0000
Subject: [PATCH 43/46] fix: an output file that cannot be opened must be
 reported

---
 src/tool/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index bd8edc3..d875dc9 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -181,6 +181,11 @@ int main(int argc, char *argv[])
             if (!output_path.empty())
             {
                 output_file.open(output_path.c_str());
+                if (!output_file)
+                {
+                    std::cerr << "Cannot open output file." << std::endl;
+                    return -1;
+                }
             }
             std::wostream& output_stream = output_path.empty() ? std::wcout : output_file;
 
-- 
2.43.0


From 790d0cc56da9bc5355441bac6d49ccb6b11b4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:54 +0000
Subject: [PATCH 44/46] fix: generate-dfa must optimise the automaton of a
 pattern when told to

---
 src/tool/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index d875dc9..b1b6d6b 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -235,7 +235,7 @@ int main(int argc, char *argv[])
                     case GenerateDFA:
                     {
                         NFA<char> nfa(stream);
-                        DFA<char> dfa(nfa);
+                        DFA<char> dfa(nfa, optimize_flag);
 
                         dfa.print(output_stream, L"DFA");
                     }
-- 
2.43.0


From b1d94ec8780c81c3dc36488560c323b214e7dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:34 +0000
Subject: [PATCH 45/46] fix: shared memory and semaphores left behind by a
 killed process must not be taken up again

---
 src/core/BaseRunner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 1835dc3..de073b8 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -263,6 +263,8 @@ protected:
     m_sub_window  = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, 0, get_sub_window_size());
     m_main_window = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, get_sub_window_size(), get_main_window_size());
 #elif defined(CENTAURUS_BUILD_LINUX)
+    //A process of the same number may have been killed before it could remove its memory
+    if (is_allocating) shm_unlink(m_memory_name);
     int fd = shm_open(m_memory_name, (is_allocating) ? O_RDWR | O_CREAT : O_RDWR, 0600);
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
@@ -289,6 +291,7 @@ protected:
 #if defined(CENTAURUS_BUILD_WINDOWS)
     m_slave_lock = CreateSemaphoreA(NULL, 0, m_bank_num, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
+    sem_unlink(m_slave_lock_name);  //left behind by a killed process of the same number
     m_slave_lock = sem_open(m_slave_lock_name, O_CREAT | O_EXCL, 0600, 0);
 #endif
   }
-- 
2.43.0


From 63e3d814eb123bd929ccaa901b9f361c2c3a079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:34 +0000
Subject: [PATCH 46/46] fix: an input that cannot be opened must be reported,
 not parsed with a size that was never set

---
 src/core/BaseRunner.hpp         |  7 ++++++-
 src/core/Exception.hpp          |  2 ++
 src/pydll/PyCentaurus.cpp       | 27 ++++++++++++++++++++++++---
 src/python/centaurus/corelib.py |  2 ++
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index de073b8..ce801b0 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -5,6 +5,7 @@
 
 #include "BaseListener.hpp"
 #include "Platform.hpp"
+#include "Exception.hpp"
 
 #define ALIGN_NEXT(x, a) (((x) + (a) - 1) / (a) * (a))
 #define PROGRAM_UUID "{57DF45C9-6D0C-4DD2-9B41-B71F8CF66B13}"
@@ -148,7 +149,11 @@ public:
         int fd = open(filename, O_RDONLY);
 
         struct stat sb;
-        fstat(fd, &sb);
+        if (fd == -1 || fstat(fd, &sb) == -1 || S_ISDIR(sb.st_mode))
+        {
+            if (fd != -1) close(fd);
+            throw SimpleException(std::string("Cannot open input file ") + filename);
+        }
         m_input_size = sb.st_size;
 
         //The parser stops at a NUL character and reads ahead by up to 16 bytes,
diff --git a/src/core/Exception.hpp b/src/core/Exception.hpp
index 3ab2ad9..ff06f9f 100644
--- a/src/core/Exception.hpp
+++ b/src/core/Exception.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <exception>
+#include <sstream>
+#include <string>
 
 namespace Centaurus
 {
diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index cf57f14..e908015 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -109,7 +109,14 @@ namespace Centaurus __attribute__((visibility("default")))
 
 	CENTAURUS_EXPORT(Stage1Runner *) Stage1RunnerCreate(const char *filename, IParser *parser, size_t bank_size, int bank_num)
 	{
-		return new Stage1Runner(filename, parser, bank_size, bank_num);
+		try
+		{
+			return new Stage1Runner(filename, parser, bank_size, bank_num);
+		}
+		catch (const std::exception&)
+		{
+			return nullptr;
+		}
 	}
 
 	CENTAURUS_EXPORT(void) RunnerStart(BaseRunner *runner)
@@ -139,11 +146,25 @@ namespace Centaurus __attribute__((visibility("default")))
 
 	CENTAURUS_EXPORT(Stage2Runner *) Stage2RunnerCreate(const char *filename, size_t bank_size, int bank_num, int master_pid)
 	{
-		return new Stage2Runner(filename, bank_size, bank_num, master_pid);
+		try
+		{
+			return new Stage2Runner(filename, bank_size, bank_num, master_pid);
+		}
+		catch (const std::exception&)
+		{
+			return nullptr;
+		}
 	}
 
 	CENTAURUS_EXPORT(Stage3Runner *) Stage3RunnerCreate(const char *filename, size_t bank_size, int bank_num, int master_pid)
 	{
-		return new Stage3Runner(filename, bank_size, bank_num, master_pid);
+		try
+		{
+			return new Stage3Runner(filename, bank_size, bank_num, master_pid);
+		}
+		catch (const std::exception&)
+		{
+			return nullptr;
+		}
 	}
 }
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index d9f77c5..aceaf29 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -98,6 +98,8 @@ class BaseRunner(object):
 
     def __init__(self, handle):
         self.handle = handle
+        if not self.handle:
+            raise RuntimeError('Cannot open the input file.')
 
     def __del__(self):
         CoreLib.RunnerDestroy(self.handle)
-- 
2.43.0

