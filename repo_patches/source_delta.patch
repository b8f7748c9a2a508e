From 82d9aac35653068b416d03824f20912a7373c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 01/71] fix: deserialise UChar without truncating it to a char

---
 lttoolbox/deserialiser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From a970bbc856a4bfca5230dde5672856e96d2da9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 02/71] fix: Alphabet::deserialise restores every symbol pair

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..2097c0c 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -206,7 +206,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
-- 
2.43.0


From 640e562b595b367049785360b34a34c1a8695fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 03/71] fix: Alphabet::tokenize keeps characters outside the
 BMP

---
 lttoolbox/alphabet.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 2097c0c..2a7a605 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -313,8 +313,11 @@ Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    if (sym.size() > 1 && sym[0] == '<') {
+      ret.push_back(operator()(sym));
+    } else {
+      ustring_to_vec32(sym, ret);
+    }
   }
   return ret;
 }
-- 
2.43.0


From ce3564dba5c09616b0fb7dbbf04d45c065156baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:10 +0000
Subject: [PATCH 04/71] fix: insertTransducer keeps the weight of a single
 final state

---
 lttoolbox/transducer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..280e995 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -144,7 +144,15 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
-  return relation[t.finals.begin()->first];
+  int const last = relation[t.finals.begin()->first];
+  double const weight = t.finals.begin()->second;
+  if(weight != default_weight)
+  {
+    // there was only one final state, and its weight has to be kept
+    return insertNewSingleTransduction(epsilon_tag, last, weight);
+  }
+
+  return last;
 }
 
 void
-- 
2.43.0


From f7f7bfa186c3a5766bcdea9333f7a5d0bab327e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:10 +0000
Subject: [PATCH 05/71] fix: determinize keeps the weights of final states

---
 lttoolbox/transducer.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 280e995..d4fc6cb 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -331,11 +331,6 @@ Transducer::determinize(int const epsilon_tag)
   int initial_prime = 0;
   std::map<int, double> finals_prime;
 
-  if(isFinal(initial))
-  {
-    finals_prime.insert({0, default_weight});
-  }
-
   int t = 0;
 
   sorted_vector<int> finals_state;
@@ -351,10 +346,15 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
+        // the weight of the best of the final states in this set
+        bool first = true;
         double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
+        for (auto& it2 : Q_prime[it]) {
+          auto it3 = finals.find(it2);
+          if (it3 != finals.end() && (first || it3->second < w)) {
+            w = it3->second;
+            first = false;
+          }
         }
         finals_prime.insert({it, w});
       }
-- 
2.43.0


From 6f895db8b5d5374de8efd8848cb60698a1aa586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:10 +0000
Subject: [PATCH 06/71] fix: reverse keeps the weight of a single final state

---
 lttoolbox/transducer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index d4fc6cb..49e9c31 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -729,8 +729,10 @@ Transducer::reverse(int const epsilon_tag)
 
   int tmp = initial;
   initial = finals.begin()->first;
+  // if there was only one final state, it may have had a weight
+  double const weight = finals.begin()->second;
   finals.clear();
-  finals.insert({tmp, default_weight});
+  finals.insert({tmp, weight});
 }
 
 void
-- 
2.43.0


From 4fd19cc0b6e9cc3bdfe70f1bc5634a6d59917cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:44 +0000
Subject: [PATCH 07/71] fix: trim rewinds the trimmer state only for the arc
 with the #

---
 lttoolbox/transducer.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 49e9c31..a7e7bc8 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1150,6 +1150,9 @@ Transducer::trim(Transducer &trimmer,
       double this_wt = trans_it.second.second;
       int32_t this_right = this_a.decode(this_label).second;
 
+      // rewinding because of a # on another arc doesn't concern this one:
+      trimmer_preplus_next = trimmer_preplus;
+
       bool special = false;
 
       if (sym_wb.count(this_right)) {
@@ -1207,21 +1210,23 @@ Transducer::trim(Transducer &trimmer,
       if (!special) {
         // Loop through non-epsilon arcs from the live state of trimmer
 
-        // If we see a hash/group, we may have to rewind our trimmer state first:
+        // If we see a hash/group, we may have to rewind our trimmer state first
+        // (only for this arc, the other arcs from this_src are not rewound):
+        int trimmer_from = trimmer_src;
         if(this_right == static_cast<int32_t>('#') &&
            trimmer_preplus != trimmer_src)
         {
           states_this_trimmed.insert({std::make_pair(this_src, std::make_pair(trimmer_preplus, trimmer_preplus)), trimmed_src});
-          trimmer_src = trimmer_preplus;
+          trimmer_from = trimmer_preplus;
         }
 
-        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_src))
+        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_from))
         {
           int trimmer_label = trimmer_trans_it.first,
               trimmer_trg   = trimmer_trans_it.second.first;
           int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-          if(trimmer_preplus == trimmer_src) {
+          if(trimmer_preplus == trimmer_from) {
             // Keep the old preplus state if it was set; equal to current trimmer state means unset:
             trimmer_preplus_next = trimmer_trg;
           }
-- 
2.43.0


From 2c1b22099b1f36b33290f096b3bace264ab7a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 08/71] fix: lt-proc analyses what is left after going back at
 the end of the input

---
 lttoolbox/fst_processor.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..c07c990 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1038,12 +1038,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
-        }
-      }
-
       current_state = initial_state;
       lf.clear();
       sf.clear();
@@ -1053,7 +1047,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       last_preblank = false;
     }
   }
-  while(val);
+  while(val != 0 || !input_buffer.isEmpty()); // at the end, but we may have gone back
 
   // print remaining blanks
   flushBlanks(output);
-- 
2.43.0


From e8466fd5cae3409943edb71b0c0c1b889224d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 09/71] fix: entries that share a prefix keep their own weights

---
 lttoolbox/transducer.cc | 49 ++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index a7e7bc8..9603559 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -70,42 +70,35 @@ Transducer::operator =(Transducer const &t)
 int
 Transducer::insertSingleTransduction(int const tag, int const source, double const weight)
 {
-  if(transitions.find(source) != transitions.end())
+  auto loc = transitions.find(source);
+  if(loc == transitions.end())
   {
-    if(transitions[source].count(tag) == 1)
-    {
-      auto range = transitions[source].equal_range(tag);
-      return range.first->second.first;
-    }
-    else if(transitions[source].count(tag) == 0)
-    {
-      // new state
-      int state = newState();
-      transitions[source].insert({tag, std::make_pair(state, weight)});
-      return state;
-    }
-    else if(transitions[source].count(tag) == 2)
+    return -1;
+  }
+
+  // reuse an arc, but only one with the same weight: the others
+  // belong to strings that end differently
+  bool local_cycle = false;
+  auto range = loc->second.equal_range(tag);
+  for(; range.first != range.second; range.first++)
+  {
+    if(range.first->second.second != weight)
     {
-      // there's a local cycle, must be ignored and treated like in '1'
-      auto range = transitions[source].equal_range(tag);
-      for(; range.first != range.second; range.first++)
-      {
-        if(range.first->second.first != source)
-        {
-          return range.first->second.first;
-        }
-      }
-      return -1;
+      continue;
     }
-    else
+    if(range.first->second.first != source)
     {
-      return -1;
+      return range.first->second.first;
     }
+    local_cycle = true; // only used if there is nothing else
   }
-  else
+  if(local_cycle)
   {
-    return -1;
+    return source;
   }
+
+  // new state
+  return insertNewSingleTransduction(tag, source, weight);
 }
 
 int
-- 
2.43.0


From 821b8e9637d919c92ac002077f3748442469fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 10/71] fix: count the weight of arcs that read and write
 nothing

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..903bd20 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -296,7 +296,7 @@ State::epsilonClosure()
       {
         auto tmp = new_sequence();
         *tmp = *(state[i].sequence);
-        if(it2->second.out_tag[j] != 0)
+        if(it2->second.out_tag[j] != 0 || it2->second.out_weight[j] != 0)
         {
           tmp->push_back({it2->second.out_tag[j], it2->second.out_weight[j]});
         }
-- 
2.43.0


From 768905a352e34a52345cef286bea9aa19159f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 11/71] fix: a limit on weight classes counts classes, not
 analyses

---
 lttoolbox/state.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 903bd20..801a901 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -490,19 +490,19 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   sort(lf.begin(), lf.end(), sort_weights<UString, double>());
 
+  double last_weight = 0.0000;
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
-    double last_weight = 0.0000;
-    if(maxAnalyses > 0 && maxWeightClasses > 0)
+    if(it == lf.begin() || last_weight != it->second)
     {
-      result.push_back({it->first, it->second});
-      maxAnalyses--;
-      if(last_weight!=it->second)
-      {
-        maxWeightClasses--;
-      }
+      // a new weight class begins
+      if(maxWeightClasses <= 0) break;
+      maxWeightClasses--;
+      last_weight = it->second;
     }
-    else break;
+    if(maxAnalyses <= 0) break;
+    result.push_back({it->first, it->second});
+    maxAnalyses--;
   }
   return result;
 }
-- 
2.43.0


From cfcd90a52b76bf89f3f536882b018634a58485fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:46 +0000
Subject: [PATCH 12/71] fix: printing a large weight overflowed a buffer

---
 lttoolbox/state.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 801a901..7fb7ca2 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -546,9 +546,9 @@ State::filterFinalsArray(std::vector<UString>& result,
     if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
-      UChar w[16]{};
-      // if anyone wants a weight of 10000, this will not be enough
-      u_sprintf(w, "<W:%f>", it.second);
+      // enough for every finite weight
+      UChar w[512]{};
+      u_snprintf(w, 511, "<W:%f>", it.second);
       result.back() += w;
     }
   }
-- 
2.43.0


From 6afb73d447811d650efb3997a6a76fedea7708dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:13 +0000
Subject: [PATCH 13/71] fix: the section of the longest match decides about the
 blank around it

---
 lttoolbox/fst_processor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index c07c990..d79953e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -828,6 +828,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_incond = true;
+        last_postblank = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -838,7 +840,9 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
         last_postblank = true;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -849,6 +853,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
+        last_postblank = false;
         last_preblank = true;
         last = input_buffer.getPos();
         last_size = sf.size();
-- 
2.43.0


From c8ad0540573023df3b92f13f05a762bc209708b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:39 +0000
Subject: [PATCH 14/71] fix: the end of the input is not read as a character

---
 lttoolbox/fst_processor.cc | 16 ++++++++++++----
 lttoolbox/input_file.cc    | 10 +++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d79953e..f68b8ac 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -197,6 +197,9 @@ FSTProcessor::readAnalysis(InputFile& input)
   while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
   {
     val = input.get();
+    if (val == U_EOF) {
+      val = 0;
+    }
   }
 
   if(escaped_chars.find(val) != escaped_chars.end())
@@ -226,6 +229,9 @@ FSTProcessor::readAnalysis(InputFile& input)
 
       case '\\':
         val = input.get();
+        if (val == U_EOF) {
+          val = 0;
+        }
         input_buffer.add(static_cast<int32_t>(val));
         return val;
 
@@ -369,13 +375,14 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         if (c == '[') {
           input.unget(c);
           break;
+        } else if (c == '\0' || c == U_EOF) {
+          input.unget(c);
+          break;
         } else if (c == '\\') {
+          if (input.peek() == U_EOF) break;
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
-        } else if (c == '\0') {
-          input.unget(c);
-          break;
         } else {
           word.push_back(static_cast<int32_t>(c));
         }
@@ -388,10 +395,11 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0') {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
       } else if (c == '\\') {
+        if (input.peek() == U_EOF) break;
         word.push_back(static_cast<int32_t>(input.get()));
       } else if (c == '<') {
         word.push_back(alphabet(input.readBlock('<', '>')));
diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index f296927..7a19f74 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -174,11 +174,11 @@ InputFile::readBlock(const UChar32 start, const UChar32 end)
   UChar32 c = 0;
   while (c != end && !eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != U_EOF) {
       ret += get();
     }
   }
@@ -194,11 +194,11 @@ InputFile::finishWBlank()
   UChar32 c = 0;
   while (!eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || c == U_EOF) {
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != U_EOF) {
       ret += get();
     } else if (c == ']' && peek() == ']') {
       ret += get();
@@ -235,7 +235,7 @@ InputFile::readBlank(bool readwblank)
     } else {
       ret += c;
       if (c == '\\') {
-        if (eof() || peek() == '\0') {
+        if (eof() || peek() == '\0' || peek() == U_EOF) {
           std::cerr << "Unexpected trailing backslash" << std::endl;
           exit(EXIT_FAILURE);
         }
-- 
2.43.0


From 46cb7a9b5af581e4d54fd52a76f31870eef8815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:16 +0000
Subject: [PATCH 15/71] fix: the weight of an entry is counted once

---
 lttoolbox/compiler.cc    | 21 ++++++++++++++++++++-
 lttoolbox/entry_token.cc |  3 ++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..94c5e8b 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -224,7 +224,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
 
   if(pi.size() == 0 && pd.size() == 0)
   {
-    state = t.insertNewSingleTransduction(alphabet(0, 0), state, default_weight);
+    state = t.insertNewSingleTransduction(alphabet(0, 0), state, entry_weight);
   }
   else
   {
@@ -902,6 +902,25 @@ Compiler::procEntry()
     }
     else if(name == COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
+      if(weight != default_weight)
+      {
+        // count the weight of the entry once, on its last string
+        bool counted = false;
+        for(auto it = elements.rbegin(); it != elements.rend(); ++it)
+        {
+          if(it->isSingleTransduction())
+          {
+            it->setSingleTransduction(it->left(), it->right(), counted ? default_weight : weight);
+            counted = true;
+          }
+        }
+        if(!counted)
+        {
+          EntryToken e;
+          e.setSingleTransduction(std::vector<int>(), std::vector<int>(), weight);
+          elements.insert(elements.begin(), e);
+        }
+      }
       // insert elements into letter transducer
       insertEntryTokens(elements);
       return;
diff --git a/lttoolbox/entry_token.cc b/lttoolbox/entry_token.cc
index c1f1d41..a0de66d 100644
--- a/lttoolbox/entry_token.cc
+++ b/lttoolbox/entry_token.cc
@@ -18,7 +18,8 @@
 
 
 EntryToken::EntryToken() :
-type(paradigm)
+type(paradigm),
+weight(0.0)
 {
 }
 
-- 
2.43.0


From 465f47227aefc03249a32979574098723e6d65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 16/71] fix: a character outside the BMP that starts no word is
 printed whole

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f68b8ac..36c9a41 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1005,7 +1005,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
@@ -1028,7 +1028,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          writeEscaped(sf.substr(0, U16_IS_LEAD(sf[0]) ? 2 : 1), output);
         }
         else
         {
-- 
2.43.0


From 028b222612441465e8da353c8639ac8ddb2e50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:24 +0000
Subject: [PATCH 17/71] fix: generation does not escape a second time what is
 escaped in its input

---
 lttoolbox/fst_processor.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 36c9a41..8eecd73 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1291,14 +1291,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         skip = true;
         if (mode == gm_tagged_nm) {
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          write(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
-          writeEscapedWithTags(rd.content, output);
+          write(rd.content, output);
           u_fputc('$', output);
         } else {
           if (mode != gm_clean) u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          write(rd.content, output);
         }
         break;
       case '@':
@@ -1306,7 +1306,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         switch (mode) {
         case gm_all:
           u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          write(rd.content, output);
           break;
         case gm_unknown:
         case gm_tagged:
@@ -1314,14 +1314,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           [[fallthrough]];
         case gm_bilgen:
         case gm_clean:
-          writeEscaped(removeTags(rd.content), output);
+          write(removeTags(rd.content), output);
           break;
         case gm_tagged_nm:
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          write(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
-          writeEscapedWithTags(rd.content, output);
+          write(rd.content, output);
           u_fputc('$', output);
           break;
         default:
@@ -1360,14 +1360,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
                                            uppercase, firstupper).substr(1), output);
           if (mode == gm_tagged || mode == gm_tagged_nm) {
             u_fputc('/', output);
-            writeEscapedWithTags(rd.content, output);
+            write(rd.content, output);
             u_fputc('$', output);
           }
         } else {
           switch (mode) {
           case gm_all:
             u_fputc('#', output);
-            writeEscaped(rd.content, output);
+            write(rd.content, output);
             break;
           case gm_carefulcase:
           case gm_unknown:
@@ -1376,14 +1376,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
             [[fallthrough]];
           case gm_bilgen:
           case gm_clean:
-            writeEscaped(removeTags(rd.content), output);
+            write(removeTags(rd.content), output);
             break;
           case gm_tagged_nm:
             u_fputc('^', output);
-            writeEscaped(removeTags(rd.content), output);
+            write(removeTags(rd.content), output);
             u_fputc('/', output);
             u_fputc('#', output);
-            writeEscapedWithTags(rd.content, output);
+            write(rd.content, output);
             u_fputc('$', output);
             break;
           }
-- 
2.43.0


From 1e3f343c7cbc7119dfad2bdccf089b58dd807e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:24 +0000
Subject: [PATCH 18/71] fix: careful-case generation keeps words without a
 translation

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 8eecd73..758786b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1308,6 +1308,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           u_fputc(rd.mark, output);
           write(rd.content, output);
           break;
+        case gm_carefulcase:
         case gm_unknown:
         case gm_tagged:
           u_fputc(rd.mark, output);
-- 
2.43.0


From ae62c7a3a8cf1baa465698ac4c6a3857dc54b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:04 +0000
Subject: [PATCH 19/71] fix: an escaped backslash before the tags of a word

---
 lttoolbox/fst_processor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 758786b..5b12748 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2379,7 +2379,11 @@ FSTProcessor::removeTags(UStringView str)
 {
   for(unsigned int i = 0; i < str.size(); i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '\\')
+    {
+      i++; // the next character is escaped
+    }
+    else if(str[i] == '<' && i >=1)
     {
       return str.substr(0, i);
     }
-- 
2.43.0


From c39ef9d71a7846260c672cd4a3425867327071d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:31 +0000
Subject: [PATCH 20/71] fix: post-generation continues right after a
 replacement

---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5b12748..adb30ae 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1540,9 +1540,9 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
           if (c == static_cast<int32_t>(' ')) lf_spaces++;
         }
         space_diff += (lf_spaces - sf_spaces);
-        size_t last_start = start_pos;
-        start_pos = match_pos - i;
-        if (start_pos == last_start) start_pos++;
+        bool none_consumed = (start_pos + i == match_pos);
+        start_pos += match.size() - i;
+        if (none_consumed) start_pos++;
         cur_pos = start_pos;
         cur_word = 0;
       }
-- 
2.43.0


From c05033ec595fb1f65cfdc1475d5b15b0c780718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:53 +0000
Subject: [PATCH 21/71] fix: symbol_iter does not read beyond its string

---
 lttoolbox/symbol_iter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/symbol_iter.cc b/lttoolbox/symbol_iter.cc
index 4ebc85b..1a7a479 100644
--- a/lttoolbox/symbol_iter.cc
+++ b/lttoolbox/symbol_iter.cc
@@ -19,11 +19,13 @@ symbol_iter::iterator& symbol_iter::iterator::operator++()
 {
   if (sloc < str.size()) {
     sloc = eloc;
+    // do not look at what comes after the end of the view
+    if (eloc >= str.size()) return *this;
     UChar32 c;
     U16_NEXT(str.data(), eloc, str.size(), c);
     if (c == '\\') {
       sloc++;
-      U16_NEXT(str.data(), eloc, str.size(), c);
+      if (eloc < str.size()) U16_NEXT(str.data(), eloc, str.size(), c);
     } else if (c == '<') {
       auto i = eloc;
       while (c != '>' && i < str.size()) U16_NEXT(str.data(), i, str.size(), c);
-- 
2.43.0


From 59eb4831e9a2f419fe28ba138474a54ed409fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:52 +0000
Subject: [PATCH 22/71] fix: bilingual lookup of a single word sees the whole
 word

---
 lttoolbox/fst_processor.cc | 83 ++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index adb30ae..e5f72a6 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1604,16 +1604,30 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
   }
 }
 
+// the code of a tag or character
+static int32_t
+symbolValue(UStringView symbol, const Alphabet& alphabet)
+{
+  if (symbol.size() > 1 && symbol[0] == '<') {
+    return alphabet(symbol);
+  }
+  UChar32 c = 0;
+  if (!symbol.empty()) {
+    U16_GET(symbol.data(), 0, 0, symbol.size(), c);
+  }
+  return c;
+}
+
 bool
 FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UString& queue)
 {
   State current_state = initial_state;
   bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  bool uppercase = firstupper && word.size() > 1 && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = symbolValue(symbol, alphabet);
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
     if (current_state.isFinal(all_finals)) {
       current_state.filterFinalsArray(result,
@@ -1621,10 +1635,12 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
-    }
-    if (current_state.size() == 0) {
-      if (!result.empty()) queue.append(symbol);
-      else return false;
+      queue.clear();
+    } else if (!result.empty()) {
+      if (isEscaped(val)) queue += '\\';
+      queue.append(symbol);
+    } else if (current_state.size() == 0) {
+      return false;
     }
   }
   return !result.empty();
@@ -1656,7 +1672,7 @@ FSTProcessor::biltransfull(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1701,7 +1717,7 @@ FSTProcessor::biltrans(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1900,15 +1916,12 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
   }
 
   bool firstupper = u_isupper(input_word[start_point]);
-  bool uppercase = firstupper && u_isupper(input_word[start_point+1]);
+  bool uppercase = firstupper && start_point < end_point && u_isupper(input_word[start_point+1]);
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val;
-    if (symbol.size() == 1) {
-      val = symbol[0];
-    } else {
-      val = alphabet(symbol);
+    int32_t val = symbolValue(symbol, alphabet);
+    if (symbol.size() > 1 && symbol[0] == '<') {
       seentags = true;
     }
     if(current_state.size() != 0)
@@ -1921,33 +1934,23 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
+      queue.clear();
     }
-
-    if(current_state.size() == 0)
+    else if(!result.empty())
     {
-      if(!symbol.empty() && !result.empty())
-      {
-        queue.append(symbol);
-      }
-      else
-      {
-        // word is not present
-        if(with_delim)
-        {
-          return {"^@"_u + US(input_word.substr(1)), 0};
-        }
-        else
-        {
-          return {"@"_u + US(input_word), 0};
-        }
-      }
+      if (isEscaped(val)) queue += '\\';
+      queue.append(symbol);
+    }
+    else if(current_state.size() == 0)
+    {
+      break;
     }
   }
 
-  if (!seentags
+  if (result.empty() || (!seentags
       && current_state.filterFinals(all_finals, alphabet, escaped_chars,
                                     displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                    uppercase, firstupper, 0).empty())
+                                    uppercase, firstupper, 0).empty()))
   {
     // word is not present
     if(with_delim)
@@ -1992,7 +1995,7 @@ FSTProcessor::biltransWithoutQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   UString queue;
   bool exists = step_biltrans(word, result, queue);
   if (!exists || !queue.empty()) {
@@ -2502,11 +2505,11 @@ FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
 {
   State current_state = initial_state;
   bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  bool uppercase = firstupper && word.size() > 1 && u_isupper(word[1]);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = symbolValue(symbol, alphabet);
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
   }
   current_state.filterFinalsArray(result,
-- 
2.43.0


From 4beccdd80c3fbf6e07ff4067c547b17c79d02070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:58 +0000
Subject: [PATCH 23/71] fix: an unknown tag is not taken for the first tag of
 the alphabet

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 2a7a605..0ae2dbd 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -112,7 +112,7 @@ Alphabet::operator()(UStringView s) const
 {
   auto it = slexic.find(s);
   if (it == slexic.end()) {
-    return -1;
+    return 0;
   }
   return it->second;
 }
-- 
2.43.0


From c6996af77cbd194c5d6035c18bc6c77203ea0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:05 +0000
Subject: [PATCH 24/71] fix: letters outside the BMP survive rewriting a
 dictionary

---
 lttoolbox/file_utils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 31608cc..aa04a33 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -90,7 +90,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
                    Alphabet& alpha,
                    std::map<UString, Transducer>& trans)
 {
-  writeTransducerSet(output, UString(letters.begin(), letters.end()), alpha, trans);
+  UString chars;
+  for (auto& it : letters) {
+    chars += it; // some letters need two code units
+  }
+  writeTransducerSet(output, chars, alpha, trans);
 }
 
 void
-- 
2.43.0


From 55307da9030be0f769759c4beceb4421997433f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 25/71] fix: an analysis that appears twice counts once towards
 -N and -L

---
 lttoolbox/state.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 7fb7ca2..8a245ce 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -491,8 +491,11 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
   sort(lf.begin(), lf.end(), sort_weights<UString, double>());
 
   double last_weight = 0.0000;
+  sorted_vector<UString> seen;
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
+    // the same analysis again does not count towards the limits
+    if(!seen.insert(it->first).second) continue;
     if(it == lf.begin() || last_weight != it->second)
     {
       // a new weight class begins
-- 
2.43.0


From 1f02e526a544b4e9334c17dca3e5b7d76cade143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 26/71] fix: a compound has the weights of all its parts

---
 lttoolbox/state.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 8a245ce..0011413 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -929,7 +929,8 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
               tnvec->push_back(state_i.sequence->at(k));
             }
             TNodeState tn(initst.where, tnvec, state_i.dirty);
-            tn.sequence->push_back({separationSymbol, 0.0});
+            // the part that ends here keeps the weight of its final state
+            tn.sequence->push_back({separationSymbol, finals.at(state_i.where)});
             state.push_back(tn);
           }
         }
-- 
2.43.0


From fc124c1b51d8af176e8c19a806788d5c75e95925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 27/71] fix: compounds with letters outside the BMP

---
 lttoolbox/fst_processor.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index e5f72a6..18ce43d 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -575,9 +575,12 @@ FSTProcessor::printUnknownWord(UStringView sf, UFILE *output)
 unsigned int
 FSTProcessor::lastBlank(UStringView str)
 {
-  for(int i = static_cast<int>(str.size())-1; i >= 0; i--)
+  size_t i = str.size();
+  while(i > 0)
   {
-    if(alphabetic_chars.find(str[i]) == alphabetic_chars.end())
+    UChar32 c;
+    U16_PREV(str.data(), 0, i, c);
+    if(alphabetic_chars.find(c) == alphabetic_chars.end())
     {
       return static_cast<unsigned int>(i);
     }
@@ -692,9 +695,11 @@ FSTProcessor::compoundAnalysis(UString input_word)
 
   State current_state = initial_state;
 
-  for(unsigned int i=0; i<input_word.size(); i++)
+  size_t i = 0;
+  while(i < input_word.size())
   {
-    UChar val=input_word[i];
+    UChar32 val;
+    U16_NEXT(input_word.data(), i, input_word.size(), val);
 
     current_state.step_case(val, beCaseSensitive(current_state));
 
@@ -707,7 +712,7 @@ FSTProcessor::compoundAnalysis(UString input_word)
       return  nullString;
     }
 
-    if(i < input_word.size()-1)
+    if(i < input_word.size())
     {
       current_state.restartFinals(all_finals, compoundOnlyLSymbol, &initial_state, '+');
     }
@@ -735,8 +740,11 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-  for(unsigned int i=0; i<input_lowered.size(); i++) {
-    current_state.step_case(input_lowered[i], beCaseSensitive(current_state));
+  size_t i = 0;
+  while(i < input_lowered.size()) {
+    UChar32 val;
+    U16_NEXT(input_lowered.data(), i, input_lowered.size(), val);
+    current_state.step_case(val, beCaseSensitive(current_state));
     if(current_state.size()==0) {
       break;
     }
@@ -943,12 +951,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           && last_size <= lastBlank(sf)) {
         int oldval = val;
         UString oldsf = sf;
+        size_t read = 0;       // characters read since then
         do {
           alphabet.getSymbol(sf, val);
+          read++;
         } while ((val = readAnalysis(input)) && isAlphabetic(val));
         lf_spcmp = compoundAnalysis(sf);
         if(lf_spcmp.empty()) {  // didn't work, rewind!
-          input_buffer.back(sf.size() - oldsf.size());
+          input_buffer.back(read);
           val = oldval;
           sf.swap(oldsf);
         }
-- 
2.43.0


From c3923b1dd95aa9fcadd014e27e6330dfcb1ae113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:43 +0000
Subject: [PATCH 28/71] fix: the length of the last word does not hide a
 compound in the next

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 18ce43d..dab6d9a 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1066,6 +1066,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      last_size = 0;
       last_incond = false;
       last_postblank = false;
       last_preblank = false;
-- 
2.43.0


From 9974d72b8c35d33e8028219e5908a4f6a96f18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:00 +0000
Subject: [PATCH 29/71] fix: entries after a paradigm that is empty in this
 direction are kept

---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 94c5e8b..5dd6900 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -193,8 +193,8 @@ Compiler::procParDef()
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From df47989e00f8c975b88b416ee1f9f334d40e68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:07 +0000
Subject: [PATCH 30/71] fix: lt-expand keeps the one-way entries of every
 paradigm

When an entry refers to several paradigms, or is itself restricted by a
variant, the expansions that hold in one direction only were combined
with the one-way entries of the next paradigm alone and mostly lost.
---
 lttoolbox/expander.cc | 53 ++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 39 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3ead68c..9875ee9 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -429,45 +429,20 @@ Expander::procEntry(UFILE* output)
         exit(EXIT_FAILURE);
       }
 
-      if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_lr[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_lr;
-        append(first, paradigm[p]);
-        append(items_lr, paradigm_lr[p]);
-        items_lr.insert(items_lr.end(), first.begin(), first.end());
-      }
-      else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_rl[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_rl;
-        append(first, paradigm[p]);
-        append(items_rl, paradigm_rl[p]);
-        items_rl.insert(items_rl.end(), first.begin(), first.end());
-      }
-      else
-      {
-        if(paradigm_lr[p].size() > 0)
-        {
-          items_lr.insert(items_lr.end(), items.begin(), items.end());
-        }
-        if(paradigm_rl[p].size() > 0)
-        {
-          items_rl.insert(items_rl.end(), items.begin(), items.end());
-        }
-
-        append(items_lr, paradigm_lr[p]);
-        append(items_rl, paradigm_rl[p]);
-        append(items, paradigm[p]);
-      }
+      // an expansion is one-way if the part before or the paradigm entry is
+      EntList both_lr = items, both_rl = items;
+      append(both_lr, paradigm_lr[p]);
+      append(both_rl, paradigm_rl[p]);
+
+      EntList par_lr = paradigm_lr[p], par_rl = paradigm_rl[p];
+      par_lr.insert(par_lr.end(), paradigm[p].begin(), paradigm[p].end());
+      par_rl.insert(par_rl.end(), paradigm[p].begin(), paradigm[p].end());
+
+      append(items_lr, par_lr);
+      append(items_rl, par_rl);
+      append(items, paradigm[p]);
+      items_lr.insert(items_lr.end(), both_lr.begin(), both_lr.end());
+      items_rl.insert(items_rl.end(), both_rl.begin(), both_rl.end());
     }
     else if(name == Compiler::COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
-- 
2.43.0


From 88f2cb0c87735529ff3c60cec41c5e7c4cdf3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:08 +0000
Subject: [PATCH 31/71] fix: lt-expand escapes the first character of a text
 too

---
 lttoolbox/expander.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 9875ee9..428ea8e 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -92,10 +92,10 @@ Expander::readString(UString &result, UStringView name)
   {
     UString value = XMLParseUtil::readValue(reader);
     UString escaped = "^$/<>{}\\*@#+~:"_u;
-    for(size_t i = value.size()-1; i > 0; i--)
+    for(size_t i = value.size(); i > 0; i--)
     {
-      if(escaped.find(value[i]) != UString::npos) {
-        value.insert(value.begin()+i, '\\');
+      if(escaped.find(value[i-1]) != UString::npos) {
+        value.insert(value.begin()+(i-1), '\\');
       }
     }
     result.append(value);
-- 
2.43.0


From b0e340ce12bb22c9b0548437ef4f6d1f88ac62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:08 +0000
Subject: [PATCH 32/71] fix: lt-expand accepts a paradigm all of whose entries
 are left out

---
 lttoolbox/expander.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 428ea8e..cd70bf9 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -64,6 +64,7 @@ Expander::procParDef()
   }
   else
   {
+    paradigm[current_paradigm]; // a paradigm without entries is still defined
     current_paradigm.clear();
   }
 }
-- 
2.43.0


From c2099d730a427c47371c3e96235d5b440023f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:55 +0000
Subject: [PATCH 33/71] fix: lt-expand reads lists of variants and alternatives
 like lt-comp

---
 lttoolbox/compiler.h  | 11 ++++++-----
 lttoolbox/expander.cc | 16 ++++++++--------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/lttoolbox/compiler.h b/lttoolbox/compiler.h
index f300bc3..990ef03 100644
--- a/lttoolbox/compiler.h
+++ b/lttoolbox/compiler.h
@@ -203,11 +203,6 @@ private:
    */
   void procEntry();
 
-  /**
-   * Return true if the filter (command line) is consistent with
-   * the value (attribute) and false otherwise
-   */
-  bool filterEntry(UStringView value, UStringView filter, bool keep_on_empty_filter);
   void symbolFilters(UStringView value, UStringView prefix, std::vector<std::vector<int32_t>>& symbols);
 
   /**
@@ -361,6 +356,12 @@ public:
   static constexpr UStringView COMPILER_LSX_SPACE_YES_VAL  = u"yes";
   static constexpr UStringView COMPILER_LSX_SPACE_NO_VAL   = u"no";
 
+  /**
+   * Return true if the filter (command line) is consistent with
+   * the value (attribute) and false otherwise
+   */
+  static bool filterEntry(UStringView value, UStringView filter, bool keep_on_empty_filter);
+
   /**
    * Constructor
    */
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index cd70bf9..e1ec8ab 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -337,11 +337,11 @@ Expander::procEntry(UFILE* output)
 
   UString myname;
   if(this->attrib(Compiler::COMPILER_IGNORE_ATTR) == Compiler::COMPILER_IGNORE_YES_VAL
-   || (!altval.empty() && altval != alt)
-   || (!varval.empty() && varval != variant && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || ((!varl.empty() && varl != variant_left) && (!varr.empty() && varr != variant_right))
-   || (!varl.empty() && varl != variant_left && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varr.empty() && varr != variant_right && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
+   || !Compiler::filterEntry(altval, alt, false)
+   || (!Compiler::filterEntry(varval, variant, false) && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
+   || (!Compiler::filterEntry(varl, variant_left, false) && !Compiler::filterEntry(varr, variant_right, false))
+   || (!Compiler::filterEntry(varl, variant_left, false) && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
+   || (!Compiler::filterEntry(varr, variant_right, false) && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
   {
     do
     {
@@ -360,13 +360,13 @@ Expander::procEntry(UFILE* output)
 
   EntList items, items_lr, items_rl;
   if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL
-   || (!varval.empty() && varval != variant && attribute != Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varl.empty() && varl != variant_left))
+   || (!Compiler::filterEntry(varval, variant, false) && attribute != Compiler::COMPILER_RESTRICTION_RL_VAL)
+   || !Compiler::filterEntry(varl, variant_left, false))
   {
     items_lr.push_back(make_pair(""_u, ""_u));
   }
   else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL
-        || (!varr.empty() && varr != variant_right))
+        || !Compiler::filterEntry(varr, variant_right, false))
   {
     items_rl.push_back(make_pair(""_u, ""_u));
   }
-- 
2.43.0


From 14f39dbb350f265b718212d2ce01ac20f56fd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:31 +0000
Subject: [PATCH 34/71] fix: an empty entry that is left out does not hide the
 next entry

---
 lttoolbox/compiler.cc | 2 ++
 lttoolbox/expander.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 5dd6900..39b2548 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -805,6 +805,8 @@ Compiler::procEntry()
    || (direction == COMPILER_RESTRICTION_RL_VAL && !filterEntry(varl, variant_left, false))
    || (direction == COMPILER_RESTRICTION_LR_VAL && !filterEntry(varr, variant_right, false)))
   {
+    if (xmlTextReaderIsEmptyElement(reader)) return;
+
     // parse to the end of the entry
     UString name;
 
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index e1ec8ab..6bf5999 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -343,6 +343,8 @@ Expander::procEntry(UFILE* output)
    || (!Compiler::filterEntry(varl, variant_left, false) && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
    || (!Compiler::filterEntry(varr, variant_right, false) && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
   {
+    if (xmlTextReaderIsEmptyElement(reader)) return;
+
     do
     {
       int ret = xmlTextReaderRead(reader);
-- 
2.43.0


From 42ec24705d4357c26337a9e97acff4c9b95154d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 35/71] fix: lt-expand accepts comments inside entries like
 lt-comp

---
 lttoolbox/expander.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 6bf5999..422d510 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -160,9 +160,9 @@ Expander::readString(UString &result, UStringView name)
 void
 Expander::skipBlanks(UString &name)
 {
-  if(name == Compiler::COMPILER_TEXT_NODE)
+  while(name == Compiler::COMPILER_TEXT_NODE || name == Compiler::COMPILER_COMMENT_NODE)
   {
-    if(!allBlanks())
+    if(name != Compiler::COMPILER_COMMENT_NODE && !allBlanks())
     {
       std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
       std::cerr << "): Invalid construction." << std::endl;
@@ -179,9 +179,9 @@ Expander::skip(UString &name, UStringView elem)
   xmlTextReaderRead(reader);
   name = XMLParseUtil::readName(reader);
 
-  if(name == Compiler::COMPILER_TEXT_NODE)
+  while(name == Compiler::COMPILER_TEXT_NODE || name == Compiler::COMPILER_COMMENT_NODE)
   {
-    if(!allBlanks())
+    if(name != Compiler::COMPILER_COMMENT_NODE && !allBlanks())
     {
       std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
       std::cerr << "): Invalid construction." << std::endl;
-- 
2.43.0


From 9c3b9bddb1df47ceb52bea50f2fc4d13acfb3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:35 +0000
Subject: [PATCH 36/71] fix: ATT compilation keeps letters outside the BMP

---
 lttoolbox/att_compiler.cc | 3 +--
 lttoolbox/att_compiler.h  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 4c415c1..71e39c3 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -531,8 +531,7 @@ AttCompiler::write(FILE *output)
   } else {
     temp["main@standard"_u] = extract_transducer(UNDECIDED);
   }
-  writeTransducerSet(output, UString(letters.begin(), letters.end()),
-                     alphabet, temp);
+  writeTransducerSet(output, letters, alphabet, temp);
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 4d4af15..533ddb6 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -108,7 +108,7 @@ private:
 
   Alphabet alphabet;
   /** All non-multicharacter symbols. */
-  std::set<UChar> letters;
+  std::set<UChar32> letters;
 
   /** Used in AttNode. */
   struct Transduction
-- 
2.43.0


From c7cebec8200f7b946e5eddcc1357cb6ed7e85e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:35 +0000
Subject: [PATCH 37/71] fix: splitting an ATT file follows shared states for
 words and punctuation

---
 lttoolbox/att_compiler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 71e39c3..08a34a9 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -468,18 +468,22 @@ AttCompiler::classify_forwards()
   while(!todo.empty()) {
     int next = todo.top();
     todo.pop();
-    if(done.find(next) != done.end()) continue;
+    done.insert(next);
     AttNode* n1 = get_node(next);
     for(auto& t1 : n1->transductions) {
       AttNode* n2 = get_node(t1.to);
+      bool changed = false;
       for(auto& t2 : n2->transductions) {
-        t2.type |= t1.type;
+        if((t2.type | t1.type) != t2.type) {
+          t2.type |= t1.type;
+          changed = true;
+        }
       }
-      if(done.find(t1.to) == done.end()) {
+      // a state reached in another way may pass on a further type
+      if(changed || done.find(t1.to) == done.end()) {
         todo.push(t1.to);
       }
     }
-    done.insert(next);
   }
 }
 
-- 
2.43.0


From 78cd28d286cfc8f8d48aea257e0d6cee579d48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:35 +0000
Subject: [PATCH 38/71] fix: of two arcs that differ in weight only the better
 one counts

---
 lttoolbox/transducer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 9603559..7e04e37 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -162,6 +162,8 @@ Transducer::linkStates(int const source, int const target,
     {
       if(range.first->first == tag && range.first->second.first == target)
       {
+        // of two equal arcs the better one counts
+        range.first->second.second = std::min(range.first->second.second, weight);
         return;
       }
     }
-- 
2.43.0


From 85c96ddfdde77db0406173eddc8f5c9aee8e9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:32 +0000
Subject: [PATCH 39/71] fix: lt-print -a shows letters outside the BMP

---
 lttoolbox/lt_print.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 6619530..b4f023d 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -46,7 +46,8 @@ int main(int argc, char *argv[])
 
   if (alpha) {
     for (auto& it : alphabetic_chars) {
-      u_fprintf(output, "%C\n", it);
+      u_fputc(it, output);
+      u_fputc('\n', output);
     }
     for (int i = 1; i <= alphabet.size(); i++) {
       alphabet.writeSymbol(-i, output);
-- 
2.43.0


From 407654ca3d97aac3de9ebd3af0b85e21c41aa20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 40/71] fix: lt-print prints a dictionary with an empty section

---
 lttoolbox/lt_print.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index b4f023d..667bdd9 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -59,7 +59,9 @@ int main(int argc, char *argv[])
       if (!first) {
         u_fprintf(output, "--\n");
       }
-      it.second.joinFinals();
+      if (!it.second.getFinals().empty()) { // a section may be empty
+        it.second.joinFinals();
+      }
       it.second.show(alphabet, output, 0, hfst);
       first = false;
     }
-- 
2.43.0


From 1479ea3885f31be2ef0482e8b3e6dd315fc7e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:57 +0000
Subject: [PATCH 41/71] fix: lt-append keeps letters outside the BMP

---
 lttoolbox/lt_append.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a8358fb..a15d0b7 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -49,7 +49,6 @@ int main(int argc, char *argv[])
   for (auto& it : chars2) {
     chars1.insert(it);
   }
-  UString chars(chars1.begin(), chars1.end());
 
   for (auto& it : trans2) {
     if (trans1.find(it.first) != trans1.end()) {
@@ -63,7 +62,7 @@ int main(int argc, char *argv[])
     trans1[it.first] = it.second;
   }
 
-  writeTransducerSet(output, chars, alpha1, trans1);
+  writeTransducerSet(output, chars1, alpha1, trans1);
 
   fclose(input1);
   fclose(input2);
-- 
2.43.0


From 6befc1a0dcc15b0477018a88d66476ddce82cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:57 +0000
Subject: [PATCH 42/71] fix: lt-merge reads its input file also without an
 output file

---
 lttoolbox/lt_merge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d3939f7..d176f20 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -35,7 +35,7 @@ int main(int argc, char *argv[])
   auto strs = cli.get_strs();
   bool unmerge = cli.get_bools()["unmerge"];
   InputFile input;
-  if (!cli.get_files()[1].empty()) {
+  if (!cli.get_files()[0].empty()) {
     input.open_or_exit(cli.get_files()[0].c_str());
   }
   UFILE* output = openOutTextFile(cli.get_files()[1]);
-- 
2.43.0


From 8a40db190462a94ec21cffe63f163c13e50f44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:57 +0000
Subject: [PATCH 43/71] fix: lt-restrict treats left and right variants like
 lt-comp

---
 lttoolbox/lt_restrict.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 0aef3b4..1ab81ad 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -70,11 +70,16 @@ int main(int argc, char* argv[])
   for (auto& it : cli.get_strs()["alt"]) {
     get_symbol(it, alpha, "alt", keep);
   }
+  // as in lt-comp, variants restrict the side they are generated on
+  bool has_vl = (dir != "LR");
+  bool has_vr = (dir != "RL");
   for (auto& it : cli.get_strs()["var-left"]) {
     get_symbol(it, alpha, "vl", keep);
+    has_vl = true;
   }
   for (auto& it : cli.get_strs()["var-right"]) {
     get_symbol(it, alpha, "vr", keep);
+    has_vr = true;
   }
 
   for (int32_t i = 1; i <= alpha.size(); i++) {
@@ -83,13 +88,15 @@ int main(int argc, char* argv[])
     if (StringUtils::startswith(t, u"<r:") ||
         (has_var && StringUtils::startswith(t, u"<v:")) ||
         StringUtils::startswith(t, u"<alt:") ||
-        StringUtils::startswith(t, u"<vl:") ||
-        StringUtils::startswith(t, u"<vr:")) {
+        (has_vl && StringUtils::startswith(t, u"<vl:")) ||
+        (has_vr && StringUtils::startswith(t, u"<vr:"))) {
       int32_t s = alpha(-i, -i);
       if (!keep.count(s)) {
         drop.insert(s);
       }
-    } else if (!has_var && StringUtils::startswith(t, u"<v:")) {
+    } else if (StringUtils::startswith(t, u"<v:") ||
+               StringUtils::startswith(t, u"<vl:") ||
+               StringUtils::startswith(t, u"<vr:")) {
       keep.insert(alpha(-i, -i));
     }
   }
-- 
2.43.0


From 3bea92ce67f018f5efbc623afabda6170dceb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 44/71] fix: an ATT file starts at the source of its first
 line, also when that is not state 0

---
 lttoolbox/att_compiler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 08a34a9..65a3a68 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -330,8 +330,9 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
     }
   }
 
-  if (!multiple_transducers) {
-    starting_state = 1;
+  auto& starts = get_node(starting_state)->transductions;
+  if (!multiple_transducers && !starts.empty()) {
+    starting_state = starts[0].to;
     // if we aren't disjuncting multiple transducers
     // then we have an extra epsilon transduction at the beginning
     // so skip it
-- 
2.43.0


From 8c69c3868c93b40e2eb29a3d16106f895b44f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 45/71] fix: lt-merge keeps the escapes of blanks between
 merged words

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index dab6d9a..5d55e01 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2042,7 +2042,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
     }
     if(merging) {
       if(surface.size() > 0) {
-        surface += reader.blank;
+        appendEscaped(surface, reader.blank);
         appendEscaped(surface, reader.wblank);
         if(!reader.wblank.empty()) { appendEscaped(surface, "^$"_u); } // otherwise cg-proc will Error wordblank not prior to token
       }
-- 
2.43.0


From 62a04327e85fbe9312c68c771c469c103aea983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 46/71] fix: lt-merge prints merged words that are not closed
 at the end of the input

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5d55e01..bf93d88 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2076,7 +2076,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         u_fputc('$', output);
       }
     }
-    if(end_merging || reader.at_null) {
+    if(end_merging || reader.at_null || reader.at_eof) {
       if (merging) {
         u_fputc('^', output);
         write(surface, output);
-- 
2.43.0


From c54de1a07a7fe574ba3735fed0ed50c9754cc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 47/71] fix: a regular expression with a superfluous ) or none
 at all is not cut short silently

---
 lttoolbox/regexp_compiler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 18c7bee..3dce49f 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -123,10 +123,14 @@ void
 RegexpCompiler::compile(std::vector<int32_t> const &er)
 {
   input = er;
-  token = input[0];
+  token = input.empty() ? FIN_FICHERO : input[0];
   index = 0;
   state = transducer.getInitial();
   S();
+  if(token != FIN_FICHERO)
+  {
+    error();
+  }
   transducer.setFinal(state, default_weight);
 }
 
-- 
2.43.0


From a8c7ffaf13ae388b3c12f547cee634fbc9881249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 48/71] fix: an empty list of characters in a regular
 expression is refused

---
 lttoolbox/regexp_compiler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 3dce49f..a61c8e6 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -325,6 +325,10 @@ RegexpCompiler::Esp()
   {
     Lista();
     consume(']');
+    if(brackets.empty())
+    {
+      error();
+    }
     Postop();
 
     for(auto it = brackets.begin();
-- 
2.43.0


From 9184774f690f7d081c30054c09fe66914984282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 49/71] fix: a negated list of characters does not match the
 empty string

---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index a61c8e6..0ca4e2c 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -349,7 +349,7 @@ RegexpCompiler::Esp()
     consume(']');
     Postop();
 
-    for(int i = 0; i < 256 ;i++)
+    for(int i = 1; i < 256 ;i++)
     {
       if(brackets.find(i) == brackets.end())
       {
-- 
2.43.0


From 34c5294b8da40c91cc81654e2d02e1bed917c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 50/71] fix: a regular expression that ends in a backslash is
 refused

---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 0ca4e2c..25d67b5 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -405,7 +405,7 @@ RegexpCompiler::Lista()
 void
 RegexpCompiler::Reservado()
 {
-  if(isReserved(token))
+  if(isReserved(token) && token != FIN_FICHERO)
   {
     consume(token);
   }
-- 
2.43.0


From 6eeab379a7ee2b20ee2e55a90ef6f4fee0092016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 51/71] fix: -I switches off the default ignored characters
 also with an icx file

---
 lttoolbox/fst_processor.cc | 5 +++--
 lttoolbox/fst_processor.h  | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index bf93d88..87d8128 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -140,7 +140,7 @@ FSTProcessor::procNodeICX()
 void
 FSTProcessor::initDefaultIgnoredCharacters()
 {
-  ignored_chars.insert(173); // '\u00AD', soft hyphen
+  default_ignored_chars.insert(173); // '\u00AD', soft hyphen
 }
 
 void
@@ -194,7 +194,8 @@ FSTProcessor::readAnalysis(InputFile& input)
     val = 0;
   }
 
-  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
+  while ((useIgnoredChars && ignored_chars.find(val) != ignored_chars.end()) ||
+         (useDefaultIgnoredChars && default_ignored_chars.find(val) != default_ignored_chars.end()))
   {
     val = input.get();
     if (val == U_EOF) {
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c0a1c42..f09beb1 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -132,6 +132,11 @@ private:
    */
   std::set<UChar32> ignored_chars;
 
+  /**
+   * Set of characters to ignore by default
+   */
+  std::set<UChar32> default_ignored_chars;
+
   /**
    * Mapping of characters for simplistic diacritic restoration specified in RCX files
    */
-- 
2.43.0


From d1b370cf2ffeabbde98faeff99740d9efe17e6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 52/71] fix: diacritic restoration of capital letters outside
 ASCII

---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 87d8128..45f92a2 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -918,14 +918,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(rcx_map.find(u_tolower(val)) != rcx_map.end())
       {
-        rcx_map_ptr = rcx_map.find(tolower(val));
-        tmpset.insert(tolower(val));
+        rcx_map_ptr = rcx_map.find(u_tolower(val));
+        tmpset.insert(u_tolower(val));
         tmpset.insert(rcx_map_ptr->second.begin(), rcx_map_ptr->second.end());
         current_state.step(val, tmpset);
       }
       else
       {
-        tmpset.insert(tolower(val));
+        tmpset.insert(u_tolower(val));
         current_state.step(val, tmpset);
       }
     }
-- 
2.43.0


From bdb4ce4494aad5c493e5b63fe4f5fc3b28071c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 53/71] fix: icx and rcx files with characters outside the BMP
 or empty values

---
 lttoolbox/fst_processor.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 45f92a2..d4fd969 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -109,6 +109,24 @@ FSTProcessor::parseRCX(std::string const &file)
   }
 }
 
+/**
+ * The one character of the attribute "value" of the current element
+ */
+static int32_t
+charValue(xmlTextReaderPtr reader, UStringView attr)
+{
+  UString value = XMLParseUtil::attrib(reader, attr);
+  if(value.empty())
+  {
+    std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
+    std::cerr << "): Missing or empty attribute '" << attr << "'." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+  UChar32 c;
+  U16_GET(value.data(), 0, 0, value.size(), c);
+  return c;
+}
+
 void
 FSTProcessor::procNodeICX()
 {
@@ -123,7 +141,7 @@ FSTProcessor::procNodeICX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    ignored_chars.insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    ignored_chars.insert(charValue(reader, XML_VALUE_ATTR));
   }
   else if(name == XML_COMMENT_NODE)
   {
@@ -157,11 +175,11 @@ FSTProcessor::procNodeRCX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    rcx_current_char = static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]);
+    rcx_current_char = charValue(reader, XML_VALUE_ATTR);
   }
   else if(name == XML_RESTORE_CHAR_ELEM)
   {
-    rcx_map[rcx_current_char].insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    rcx_map[rcx_current_char].insert(charValue(reader, XML_VALUE_ATTR));
   }
   else if(name == XML_COMMENT_NODE)
   {
-- 
2.43.0


From f599bdcce6f401b29a9b8ad31e61cc1797c36b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:18 +0000
Subject: [PATCH 54/71] fix: equivalent characters do not join entries that
 only share them

---
 lttoolbox/compiler.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 39b2548..696e8cd 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -273,7 +273,13 @@ Compiler::matchTransduction(std::vector<int> const &pi,
         weight_value = default_weight;
       }
 
-      int new_state = t.insertSingleTransduction(tag, state, weight_value);
+      int new_state;
+      if (acx_map.empty()) {
+        new_state = t.insertSingleTransduction(tag, state, weight_value);
+      } else {
+        // an existing arc may stand for an equivalent character of another entry
+        new_state = t.insertNewSingleTransduction(tag, state, weight_value);
+      }
 
       if (is_separable) {
         // loop-back symbols for <ANY_TAG> and <ANY_CHAR>
-- 
2.43.0


From 11ee2957b68ade868050bf1dc51748fd0d0ae126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:27 +0000
Subject: [PATCH 55/71] fix: a wildcard after a wildcard in a separable
 dictionary is not lost

---
 lttoolbox/compiler.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 696e8cd..c2ed1e6 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -274,10 +274,16 @@ Compiler::matchTransduction(std::vector<int> const &pi,
       }
 
       int new_state;
-      if (acx_map.empty()) {
+      bool wildcard = (is_separable &&
+                       (tag == alphabet(any_tag, any_tag) ||
+                        tag == alphabet(any_char, any_char) ||
+                        tag == alphabet(any_tag, 0) ||
+                        tag == alphabet(any_char, 0)));
+      if (acx_map.empty() && !wildcard) {
         new_state = t.insertSingleTransduction(tag, state, weight_value);
       } else {
-        // an existing arc may stand for an equivalent character of another entry
+        // an existing arc may stand for an equivalent character of another
+        // entry or be the loop of the wildcard before this one
         new_state = t.insertNewSingleTransduction(tag, state, weight_value);
       }
 
@@ -288,10 +294,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
           // having an epsilon with wildcard output will produce
           // garbage output -- see https://github.com/apertium/apertium-separable/issues/8
           std::cerr << "Warning: Cannot insert <t/> from empty input. Ignoring. (You probably want to specify exact tags when deleting a word.)" << std::endl;
-        } else if (tag == alphabet(any_tag, any_tag) ||
-                   tag == alphabet(any_char, any_char) ||
-                   tag == alphabet(any_tag, 0) ||
-                   tag == alphabet(any_char, 0)) {
+        } else if (wildcard) {
           t.linkStates(new_state, new_state, tag);
         }
       }
-- 
2.43.0


From beeaafa13554cbc83fdd934c9e3543506166256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 56/71] fix: patterns of lt-paradigm may contain letters
 outside the BMP

---
 lttoolbox/lt_paradigm.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index e0d5858..9839a35 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -83,7 +83,14 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
   Transducer other;
   int state = other.getInitial();
   for (auto sym : symbol_iter(pattern)) {
-    int32_t it = (sym.size() == 1 ? sym[0] : alpha(sym));
+    int32_t it = 0;
+    if (sym.size() > 1 && sym[0] == '<') {
+      it = alpha(sym);
+    } else {
+      // a letter, possibly one that takes two units
+      size_t loc = 0;
+      U16_NEXT(sym.data(), loc, sym.size(), it);
+    }
     if (it == any_char) {
       state = other.insertNewSingleTransduction(0, state);
       for (auto& sym : letters) {
@@ -203,7 +210,12 @@ int main(int argc, char* argv[])
       }
       cur.clear();
     } else {
-      cur += c;
+      if (U_IS_BMP(c)) {
+        cur += static_cast<UChar>(c);
+      } else {
+        cur += U16_LEAD(c);
+        cur += U16_TRAIL(c);
+      }
     }
   } while (!input.eof());
 
-- 
2.43.0


From 672252c915bb0c145c560878cb758a7d3fefc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 57/71] fix: a tag that does not exist matches nothing in
 lt-paradigm

---
 lttoolbox/lt_paradigm.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index 9839a35..129638f 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -125,6 +125,9 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
           other.linkStates(old_state, state, alpha(t, t));
         }
       }
+      if (old_state == state) return; // none of the tags exists
+    } else if (it == 0) {
+      return; // no path has a tag which is not in the alphabet
     } else {
       state = other.insertNewSingleTransduction(alpha(it, it), state);
     }
-- 
2.43.0


From 0be91576e5550d5a7e71a30baf4cca96412f2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:23 +0000
Subject: [PATCH 58/71] fix: trimming does not mix up the tags of words with
 different groups

---
 lttoolbox/transducer.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 7e04e37..f2e78f3 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -885,12 +885,13 @@ Transducer::copyWithTagsFirst(int start,
   Transducer new_t;
   Transducer lemq;
 
-  std::map<int, int> states_this_new;
-  states_this_new.insert({start, new_t.initial});
+  typedef std::pair<int, int> SearchState;
+  // The tags after one lemq must not be mixed up with those after
+  // another one, even where they go through the same states
+  std::map<SearchState, int> states_this_new;
   std::map<int, int> states_this_lemq;
-  states_this_new.insert({start, lemq.initial});
+  states_this_lemq.insert({start, lemq.initial});
 
-  typedef std::pair<int, int> SearchState;
   // Each searchstate in the stack is a transition in this FST, along
   // with the last reached state of the lemq
   std::vector<SearchState> todo;
@@ -922,23 +923,24 @@ Transducer::copyWithTagsFirst(int start,
         if(this_src == this_lemqlast)
         {
           // We've reached the first tag
-          new_src = states_this_new[start];
+          new_src = new_t.initial;
           lemq.finals.insert({this_lemqlast, default_weight});
         }
         else
         {
-          if(states_this_new.find(this_src) == states_this_new.end())
+          if(states_this_new.find(current) == states_this_new.end())
           {
-            states_this_new.insert({this_src, new_t.newState()});
+            states_this_new.insert({current, new_t.newState()});
           }
-          new_src = states_this_new[this_src];
+          new_src = states_this_new[current];
         }
 
-        if(states_this_new.find(this_trg) == states_this_new.end())
+        SearchState next = {this_trg, this_lemqlast};
+        if(states_this_new.find(next) == states_this_new.end())
         {
-          states_this_new.insert({this_trg, new_t.newState()});
+          states_this_new.insert({next, new_t.newState()});
         }
-        int new_trg = states_this_new[this_trg];
+        int new_trg = states_this_new[next];
         new_t.linkStates(new_src, new_trg, label, this_wt);
 
         if(isFinal(this_src))
@@ -946,9 +948,9 @@ Transducer::copyWithTagsFirst(int start,
           finally.insert({this_src, this_lemqlast});
         }
 
-        if(seen.find(std::make_pair(this_trg, this_lemqlast)) == seen.end())
+        if(seen.find(next) == seen.end())
         {
-          todo.push_back({this_trg, this_lemqlast});
+          todo.push_back(next);
         }
       }
       else
@@ -971,8 +973,7 @@ Transducer::copyWithTagsFirst(int start,
 
   for(auto& it : finally)
   {
-    int last_tag = it.first,
-      this_lemqlast = it.second;
+    int this_lemqlast = it.second;
     // copy lemq, letting this_lemqlast be the only final state in newlemq
     Transducer newlemq = Transducer(lemq);
     newlemq.finals.clear();
@@ -980,7 +981,7 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[last_tag], group_start, group_label, default_weight);
+    new_t.linkStates(states_this_new[it], group_start, group_label, default_weight);
 
     // append newlemq into the group after last_tag:
     new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
-- 
2.43.0


From f6903c1b9ad5fd09ba44707c71036ec89abff5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:17 +0000
Subject: [PATCH 59/71] fix: copying a match state does not use an
 uninitialised pointer

---
 lttoolbox/match_state.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..bfd8196 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -33,7 +33,8 @@ MatchState::~MatchState()
   destroy();
 }
 
-MatchState::MatchState(MatchState const &s)
+MatchState::MatchState(MatchState const &s) :
+state(0)
 {
   copy(s);
 }
-- 
2.43.0


From 4dcfb7b9ae41a19a25e914ee3e245c0c7e8bb25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:18 +0000
Subject: [PATCH 60/71] fix: a pattern is not lost when two ways to go on start
 with the same symbol

---
 lttoolbox/match_state.cc   |  5 +++--
 lttoolbox/sorted_vector.cc | 20 +++++++++-----------
 lttoolbox/sorted_vector.h  |  5 +++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index bfd8196..42d47bb 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -91,8 +91,9 @@ MatchState::init(MatchNode *initial)
 void
 MatchState::applySymbol(MatchNode *pnode, int const symbol)
 {
-  MatchNode *aux = pnode->transitions.search(symbol);
-  if(aux != NULL)
+  // there may be several transitions with the same symbol
+  MatchNode *aux;
+  for(int i = 0; (aux = pnode->transitions.search(symbol, i)) != NULL; i++)
   {
     state[last] = aux;
     last = (last + 1)%BUF_LIMIT;
diff --git a/lttoolbox/sorted_vector.cc b/lttoolbox/sorted_vector.cc
index dad1980..8877f61 100644
--- a/lttoolbox/sorted_vector.cc
+++ b/lttoolbox/sorted_vector.cc
@@ -74,25 +74,23 @@ SortedVector::add(int tag, MatchNode *dest, double weight, int pos)
 }
 
 MatchNode *
-SortedVector::search(int tag)
+SortedVector::search(int tag, int nth)
 {
-  int left = 0, right = size-1;
-  while(left <= right)
+  // find the first item with this tag
+  int left = 0, right = size;
+  while(left < right)
   {
     int mid = (left+right)/2;
-    if(sv[mid].tag == tag)
+    if(sv[mid].tag < tag)
     {
-      return sv[mid].dest;
-    }
-    if(sv[mid].tag > tag)
-    {
-      right = mid - 1;
+      left = mid + 1;
     }
     else
     {
-      left = mid + 1;
+      right = mid;
     }
   }
 
-  return NULL;
+  left += nth;
+  return (left < size && sv[left].tag == tag) ? sv[left].dest : NULL;
 }
diff --git a/lttoolbox/sorted_vector.h b/lttoolbox/sorted_vector.h
index 0752240..e69538e 100644
--- a/lttoolbox/sorted_vector.h
+++ b/lttoolbox/sorted_vector.h
@@ -85,9 +85,10 @@ public:
   /**
    * Searching method (classic binary search)
    * @param tag to search
-   * @returns the destination MatchNode pointer
+   * @param nth which of the destinations for this tag
+   * @returns the destination MatchNode pointer, or NULL
    */
-  MatchNode * search(int tag);
+  MatchNode * search(int tag, int nth = 0);
 };
 
 #endif
-- 
2.43.0


From 8b7b809b4862b392e4c328389c08f640cd46b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:14 +0000
Subject: [PATCH 61/71] fix: trimming a string of nothing but whitespace

---
 lttoolbox/string_utils.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 57ae9d8..ee9588c 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -16,14 +16,17 @@ StringUtils::trim(UStringView str)
   size_t end = str.size();
   size_t i = 0;
   UChar32 c;
-  while (begin < end) {
+  while (i < end) {
     U16_GET(str.data(), begin, i, end, c);
     if (!u_isspace(c)) {
-      begin = i;
       break;
-    } else {
-      U16_FWD_1(str.data(), i, end);
     }
+    U16_FWD_1(str.data(), i, end);
+  }
+  begin = i;
+  if (begin == end) {
+    // nothing but whitespace
+    return str.substr(begin);
   }
   i = str.size();
   U16_BACK_1(str.data(), 0, i);
-- 
2.43.0


From 1422f36fae8c9fa117f88fc1bb736c59a44e080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:14 +0000
Subject: [PATCH 62/71] fix: changing the case of letters that become three

---
 lttoolbox/string_utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index ee9588c..ba96d15 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -190,9 +190,10 @@ StringUtils::tolower(UStringView str)
 UString
 StringUtils::toupper(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  // a single code unit can become up to three (e.g. U+FB03)
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToUpper(&buf[0], str.size()*2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToUpper(&buf[0], str.size()*3, str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to uppercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -204,9 +205,10 @@ StringUtils::toupper(UStringView str)
 UString
 StringUtils::totitle(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  // a single code unit can become up to three (e.g. U+FB03)
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToTitle(&buf[0], str.size()*2, str.data(), str.size(), NULL, NULL, &err));
+  buf.resize(u_strToTitle(&buf[0], str.size()*3, str.data(), str.size(), NULL, NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to titlecase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
-- 
2.43.0


From a38f80de5d2753d38fd91e9db6fe837b6bd64b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:25 +0000
Subject: [PATCH 63/71] fix: text that is no number is not taken as 0

---
 lttoolbox/compiler.cc     |  8 +++++++-
 lttoolbox/string_utils.cc | 22 +++++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index c2ed1e6..15604c7 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -830,7 +830,13 @@ Compiler::procEntry()
   double weight = 0.0;
   if(!wsweight.empty())
   {
-    weight = StringUtils::stod(wsweight);
+    try {
+      weight = StringUtils::stod(wsweight);
+    } catch (const std::invalid_argument& e) {
+      std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
+      std::cerr << "): Invalid weight '" << wsweight << "'." << std::endl;
+      exit(EXIT_FAILURE);
+    }
   }
 
   if (entry_debugging && current_paradigm.empty()) {
diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index ba96d15..4511ae8 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -143,12 +143,29 @@ StringUtils::ftoa(double f)
   return str;
 }
 
+// u_sscanf() reports success and gives 0 for text that is not a number
+static bool
+starts_with_number(UStringView str, bool fraction)
+{
+  size_t i = 0;
+  while (i < str.size() && u_isspace(str[i])) {
+    i++;
+  }
+  if (i < str.size() && (str[i] == '-' || str[i] == '+')) {
+    i++;
+  }
+  if (fraction && i < str.size() && str[i] == '.') {
+    i++;
+  }
+  return i < str.size() && u_isdigit(str[i]);
+}
+
 int
 StringUtils::stoi(const UString& str)
 {
   int ret;
   int c = u_sscanf(str.c_str(), "%d", &ret);
-  if (c != 1) {
+  if (c != 1 || !starts_with_number(str, false)) {
     throw std::invalid_argument("unable to parse int");
   }
   return ret;
@@ -159,6 +176,9 @@ StringUtils::stod(const UString& str)
 {
   double ret;
   int c = u_sscanf(str.c_str(), "%lf", &ret);
+  if (!starts_with_number(str, true)) {
+    c = 0;
+  }
   if (str.size() == 3 && str[0] == 'i' && str[1] == 'n' && str[2] == 'f') {
     ret = std::numeric_limits<double>::infinity();
     c = 1;
-- 
2.43.0


From 730a66f4ee7892f6a2baaca73a3bbbb455e627d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:29 +0000
Subject: [PATCH 64/71] fix: the translation memory processor loses no text

Text that begins a segment was lost when the input (or the part before a
null character) ended before the segment did; blanks and numbers of text
before the end were put into what follows; and characters of words which
had been escaped in the input were written without the backslash.
---
 lttoolbox/fst_processor.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d4fd969..b48855d 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1191,6 +1191,10 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       }
       else
       {
+        if(isEscaped(val))
+        {
+          sf += '\\';
+        }
         alphabet.getSymbol(sf, val);
       }
     }
@@ -1228,6 +1232,10 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
           }
           else
           {
+            if(isEscaped(val))
+            {
+              sf += '\\';
+            }
             alphabet.getSymbol(sf, val);
           }
         }
@@ -1235,8 +1243,7 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
 
         if(val == 0)
         {
-          write(sf, output);
-          return;
+          break;
         }
 
         input_buffer.back(1);
@@ -1293,6 +1300,27 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
     }
   }
 
+  // the input ends within a segment: go back to the last one found, or else
+  // write what was read (the blanks within it are part of it already)
+  if(!lf.empty())
+  {
+    u_fprintf(output, "[%S]", lf.c_str());
+    input_buffer.setPos(last);
+    input_buffer.back(1);
+    numbers.clear();
+    tm_analysis(input, output, tm_mode);
+    return;
+  }
+  if(!sf.empty())
+  {
+    write(sf, output);
+    while(blankqueue.size() > 0)
+    {
+      blankqueue.pop();
+    }
+  }
+  numbers.clear();
+
   // print remaining blanks
   flushBlanks(output);
 }
-- 
2.43.0


From 239712641ba974a825cfbe9474103353ebe0eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:03 +0000
Subject: [PATCH 65/71] fix: digits of other scripts in text for a translation
 memory

They ended the program with an error about the input stream, though the
compiler takes them as numbers.
---
 lttoolbox/fst_processor.cc | 40 ++++++++++++++------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index b48855d..87ba431 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -282,7 +282,21 @@ FSTProcessor::readTMAnalysis(InputFile& input)
     return 0;
   }
 
-  if(escaped_chars.find(val) != escaped_chars.end() || u_isdigit(val))
+  if(u_isdigit(val))
+  {
+    UString ws;
+    do
+    {
+      alphabet.getSymbol(ws, val);
+      val = input.get();
+    } while(u_isdigit(val));
+    input.unget(val);
+    input_buffer.add(alphabet(u"<n>"));
+    numbers.push_back(ws);
+    return alphabet(u"<n>");
+  }
+
+  if(escaped_chars.find(val) != escaped_chars.end())
   {
     switch(val)
     {
@@ -312,30 +326,6 @@ FSTProcessor::readTMAnalysis(InputFile& input)
         val = input.get();
         input_buffer.add(static_cast<int32_t>(val));
         return val;
-      case '0':
-      case '1':
-      case '2':
-      case '3':
-      case '4':
-      case '5':
-      case '6':
-      case '7':
-      case '8':
-      case '9':
-        {
-          UString ws;
-          do
-          {
-            ws += val;
-            val = input.get();
-          } while(u_isdigit(val));
-          input.unget(val);
-          input_buffer.add(alphabet(u"<n>"));
-          numbers.push_back(ws);
-          return alphabet(u"<n>");
-        }
-        break;
-
       default:
         streamError();
     }
-- 
2.43.0


From baa16645453088450b99b6377645e236851e5768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:47 +0000
Subject: [PATCH 66/71] fix: composing anywhere also passes through what
 follows a match

According to the manual the second transducer is implicitly surrounded
by .* on both sides, but only what precedes the match was let through.
---
 lttoolbox/transducer.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index f2e78f3..e9f070b 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1454,6 +1454,22 @@ Transducer::compose(Transducer const &g,
     }
     int gf_src = states_f_g_gf[current];
 
+    // If g_anywhere, what follows a complete match of g is passed through
+    // (or matched) as well:
+    if(g_anywhere && g_src != g.initial && g.isFinal(g_src)) {
+      next = std::make_pair(f_src, g.initial);
+      if (seen.find(next) == seen.end()) {
+        todo.push_back(next);
+      }
+      if (states_f_g_gf.find(next) == states_f_g_gf.end()) {
+        states_f_g_gf.insert({next, gf.newState()});
+      }
+      gf.linkStates(gf_src,
+                    states_f_g_gf[next],
+                    epsilon_tag,
+                    g.finals.at(g_src));
+    }
+
     // First loop through _epsilon_ transitions of g (input side)
     for(const auto &g_trans_it : g.transitions.at(g_src)) {
       int g_label = g_trans_it.first,
-- 
2.43.0


From 347f3a5eafdadc8ca3aa1a2d86fcd8bdfa8ac21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:07 +0000
Subject: [PATCH 67/71] fix: trimming drops joined words of which a part is not
 in the bilingual dictionary

A part of a joined word (+) was kept as soon as it was the beginning of
some entry of the trimmer, and a part that passed through the state where
the first one ended was mistaken for it, so that words stayed which lt-proc
-b can only give an @ for.
---
 lttoolbox/transducer.cc | 50 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index e9f070b..46f437d 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1062,7 +1062,7 @@ Transducer::trim(Transducer &trimmer,
   typedef std::pair<int, std::pair<int, int > > SearchState;
   // first: currently searched state in this;
   // second.first: currently matched trimmer state;
-  // second.second: last matched trimmer state before a + restart (or the same second.first if no + is seen yet).
+  // second.second: last matched trimmer state before a + restart (or unset if no + is seen yet).
   // When several trimmer-states match from one this-state, we just get several triplets.
 
   // State numbers will differ in thisXtrimmer transducers and the trimmed:
@@ -1072,7 +1072,8 @@ Transducer::trim(Transducer &trimmer,
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   SearchState current;
-  SearchState next{initial, {trimmer.initial, trimmer.initial}};
+  const int unset = -1;
+  SearchState next{initial, {trimmer.initial, unset}};
   todo.push_back(next);
   states_this_trimmed.insert({next, trimmed.initial});
 
@@ -1116,11 +1117,6 @@ Transducer::trim(Transducer &trimmer,
       double trimmer_wt = trimmer_trans_it.second.second;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-      if(trimmer_preplus == trimmer_src) {
-        // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-        trimmer_preplus_next = trimmer_trg;
-      }
-
       if(trimmer_left == 0)
       {
         next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus_next));
@@ -1151,10 +1147,18 @@ Transducer::trim(Transducer &trimmer,
 
       bool special = false;
 
-      if (sym_wb.count(this_right)) {
+      // A part of a joined word has to be complete in the trimmer where it
+      // ends; only the first one may be continued after a later #:
+      bool joined = (trimmer_preplus != unset);
+      bool incomplete = joined && !trimmer.isFinal(trimmer_src);
+
+      if (this_right == static_cast<int32_t>('+') && incomplete) {
+        // might still be part of a lemma
+      }
+      else if (sym_wb.count(this_right)) {
         special = (this_right != static_cast<int32_t>('+'));
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
+        if(!joined) {
+          // Keep the old preplus state if it was set:
           trimmer_preplus_next = trimmer_src; // not _trg when join!
         }
         // Go to the start in trimmer, but record where we restarted from in case we later see a #:
@@ -1181,11 +1185,6 @@ Transducer::trim(Transducer &trimmer,
         // Stay put in the trimmer FST
         int trimmer_trg = trimmer_src;
 
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_trg;
-        }
-
         next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
         if(seen.find(next) == seen.end())
         {
@@ -1209,11 +1208,15 @@ Transducer::trim(Transducer &trimmer,
         // If we see a hash/group, we may have to rewind our trimmer state first
         // (only for this arc, the other arcs from this_src are not rewound):
         int trimmer_from = trimmer_src;
-        if(this_right == static_cast<int32_t>('#') &&
-           trimmer_preplus != trimmer_src)
+        trimmer_preplus_next = trimmer_preplus;
+        if(this_right == static_cast<int32_t>('#') && joined)
         {
-          states_this_trimmed.insert({std::make_pair(this_src, std::make_pair(trimmer_preplus, trimmer_preplus)), trimmed_src});
+          if(incomplete)
+          {
+            continue;
+          }
           trimmer_from = trimmer_preplus;
+          trimmer_preplus_next = unset;
         }
 
         for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_from))
@@ -1222,11 +1225,6 @@ Transducer::trim(Transducer &trimmer,
               trimmer_trg   = trimmer_trans_it.second.first;
           int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-          if(trimmer_preplus == trimmer_from) {
-            // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-            trimmer_preplus_next = trimmer_trg;
-          }
-
           if (trimmer_left != 0 && // we've already dealt with trimmer epsilons
               this_a.sameSymbol(this_right, trimmer_a, trimmer_left, true)) {
             next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
@@ -1252,9 +1250,11 @@ Transducer::trim(Transducer &trimmer,
   for(auto& it : states_this_trimmed)
   {
     int s_this = it.first.first;
-    int s_trimmer = it.first.second.first; // ignore the preplus here
+    int s_trimmer = it.first.second.first;
+    int s_preplus = it.first.second.second;
     int s_trimmed = it.second;
-    if(isFinal(s_this) && trimmer.isFinal(s_trimmer))
+    if(isFinal(s_this) && trimmer.isFinal(s_trimmer)
+       && (s_preplus == unset || trimmer.isFinal(s_preplus)))
     {
       trimmed.finals.insert(std::make_pair(s_trimmed, finals[s_this]));
     }
-- 
2.43.0


From a229ca4d6050714545861749af90c3adf61888a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:18 +0000
Subject: [PATCH 68/71] fix: a character looked ahead or put back survives
 rewinding and opening another input

InputFile keeps characters that were peeked or put back in a buffer of
its own. rewind(), open() and wrap() left them there, so the first
character read afterwards was one of the previous input (or, after
peeking at the end, the new input looked empty).
---
 lttoolbox/input_file.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index 7a19f74..616642e 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -66,6 +66,7 @@ InputFile::open_or_exit(const char* fname)
 void
 InputFile::close()
 {
+  buffer_size = 0;
   if (infile != nullptr) {
     if (infile != stdin) {
       fclose(infile);
@@ -158,6 +159,7 @@ InputFile::eof()
 void
 InputFile::rewind()
 {
+  buffer_size = 0;
   if (infile != nullptr) {
     if (std::fseek(infile, 0, SEEK_SET) != 0) {
       std::cerr << "Error: Unable to rewind file" << std::endl;
-- 
2.43.0


From 40e3970fa021f2508dd3bc787fca7d2cf3198c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:53 +0000
Subject: [PATCH 69/71] fix: the list of long options has no end

getopt_long() reads the array of options up to an empty element, but
CLI::parse_args() did not provide one: an unknown or shortened long
option made it read past the end of the array.
---
 lttoolbox/cli.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/cli.cc b/lttoolbox/cli.cc
index c1a78bb..3254dee 100644
--- a/lttoolbox/cli.cc
+++ b/lttoolbox/cli.cc
@@ -124,7 +124,7 @@ void CLI::parse_args(int argc, char* argv[])
   prog_name = basename(argv[0]);
   std::string arg_str;
 #if HAVE_GETOPT_LONG
-  std::vector<struct option> long_options(options.size());
+  std::vector<struct option> long_options(options.size() + 1);
   int option_index = 0;
 #endif
   for (size_t i = 0; i < options.size(); i++) {
-- 
2.43.0


From b8adfcd4bbc878e44c49241ac9172c72f756d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:00 +0000
Subject: [PATCH 70/71] fix: lt-compose does not accept its documented option
 -j

---
 lttoolbox/lt_compose.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 6ec365d..a945fb2 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -103,6 +103,7 @@ int main(int argc, char *argv[])
   CLI cli("compose transducer1 with transducer2", PACKAGE_VERSION);
   cli.add_bool_arg('i', "inverted", "run composition right-to-left on transducer1");
   cli.add_bool_arg('a', "anywhere", "don't require anchored matches, let transducer2 optionally compose at any sub-path");
+  cli.add_bool_arg('j', "jobs", "use one cpu core per section when composing");
   cli.add_file_arg("transducer1_bin_file", false);
   cli.add_file_arg("transducer2_bin_file");
   cli.add_file_arg("trimmed_bin_file");
-- 
2.43.0


From 3b3445df84769c3c85a39b327e960a568578ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:00 +0000
Subject: [PATCH 71/71] fix: composing sections at the same time is a data race

With LT_JOBS set (or -j) lt-compose composes every section in a thread of
its own, and all of them add symbols to the one alphabet without any
synchronisation. Compose under a lock; minimising, which does not use the
alphabet, still runs in parallel.
---
 lttoolbox/lt_compose.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index a945fb2..f4c04c4 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <thread>
 #include <future>
+#include <mutex>
 
 void
 compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywhere, bool jobs)
@@ -46,6 +47,7 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   }
   union_g.minimize();
 
+  std::mutex alph_mutex;
   std::vector<std::future<std::pair<UString, Transducer>>> compositions;
   for (auto& it : trans_f) {
     if (it.second.numberOfTransitions() == 0) {
@@ -55,8 +57,14 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
     if(jobs) {
       compositions.push_back(std::async(
           [](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
+             std::mutex &alph_mutex,
              bool f_inverted, bool g_anywhere, UString name) {
-            Transducer gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
+            Transducer gf;
+            {
+              // composing adds symbols to alph_f, which all sections share
+              std::lock_guard<std::mutex> lock(alph_mutex);
+              gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
+            }
             if (gf.hasNoFinals()) {
               std::cerr << "Warning: section " << name
                         << " had no final state after composing! Skipping it..."
@@ -68,7 +76,7 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
             return std::make_pair(name, gf);
           },
           std::ref(it.second), std::ref(union_g), std::ref(alph_f),
-          std::ref(alph_g), f_inverted, g_anywhere, it.first));
+          std::ref(alph_g), std::ref(alph_mutex), f_inverted, g_anywhere, it.first));
     } else {
       Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
       if (gf.hasNoFinals()) {
-- 
2.43.0

