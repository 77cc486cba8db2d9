From ba883b7d3587dd0c03490992887ce1b779d7ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 01/33] fix: Barrier::wait reads the barrier count with the
 lock held

A caller that read the count, lost the CPU, and joined the next group
was released although its group was not complete (more callers than
waiters, or fast reuse of the barrier). It was a data race too.
---
 src/Barrier.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index ca3d689..5413519 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -55,9 +55,12 @@ namespace SoDa {
     }
     
     // bump the waiting count
-    auto old_barrier_count = barrier_count; 
     {
       std::unique_lock<std::mutex> lock(mtx);
+
+      // The barrier count must be read with the lock held. Otherwise
+      // the barrier may advance before we are counted as a waiter.
+      auto old_barrier_count = barrier_count; 
       
       waiting++; 
       if(waiting == num_waiters) {
-- 
2.43.0


From 3b2656637c05dc80fd60b501f33b6512c79cd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 02/33] fix: a timeout at a Barrier breaks it for every caller

The other waiters of the incomplete group returned normally (the
barrier count was changed under them), and later callers could pass or
time out a second time. Now exactly one caller gets Timeout and all the
others get Corrupt, as documented.
---
 src/Barrier.cxx | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/Barrier.cxx b/src/Barrier.cxx
index 5413519..9bb3ec1 100644
--- a/src/Barrier.cxx
+++ b/src/Barrier.cxx
@@ -61,6 +61,11 @@ namespace SoDa {
       // The barrier count must be read with the lock held. Otherwise
       // the barrier may advance before we are counted as a waiter.
       auto old_barrier_count = barrier_count; 
+
+      // once a waiter has timed out nobody gets through. 
+      if(corrupted) {
+	throw Barrier::Corrupt(*this);
+      }
       
       waiting++; 
       if(waiting == num_waiters) {
@@ -74,26 +79,24 @@ namespace SoDa {
 	// and does the right thing wrt the race between bumping
 	// the barrier_count and getting to the point where we're
 	// testing things. 
-	bool is_ok = cv.wait_for(lock, 
-				 timeout,
-				 [old_barrier_count, this]() {
-				   return old_barrier_count != barrier_count; 
-				 });
+	cv.wait_for(lock, 
+		    timeout,
+		    [old_barrier_count, this]() {
+		      return (old_barrier_count != barrier_count) || corrupted; 
+		    });
 	
-	// if the barrier hasn't advanced, then we timed out.
-	if (!is_ok) {
+	// if the barrier hasn't advanced, then somebody timed out.
+	if (old_barrier_count == barrier_count) {
 	  // that's really bad, as we've got a broken barrier.
 	  // If we return it will be truly broken, and everyone will
 	  // hang. Though it is likely that everyone is hung already.
-	  bool old_corrupt = corrupted; 
-	  if(old_corrupt) {
+	  if(corrupted) {
 	    throw Barrier::Corrupt(*this);
 	  }
 	  else {
 	    // we're the first one to timout. 
 	    corrupted = true; 
-	    // set the barrier count to infinity, and wake everyone up
-	    barrier_count = 0xffffffff;
+	    // wake everyone up, they'll find the barrier corrupted. 
 	    cv.notify_all();
 	    throw Barrier::Timeout(*this, timeout);
 	  }
-- 
2.43.0


From dd076aa580d3bd3863d12baa02b57889964574a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 03/33] fix: Format::addI puts no separator between the sign
 and the digits

-123456 was printed as "-,123,456".
---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 81c5fe9..61f84b5 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -162,7 +162,7 @@ namespace SoDa {
       std::string newstr;
       int i = 0; 
       for(auto c : vstr) {
-	if(i == 3) {
+	if((i == 3) && (c != '-')) {
 	  newstr = sep + newstr;
 	  i = 0; 
 	}
-- 
2.43.0


From 81e9c71e29c4356000bf70187aeb9e38f3026182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 04/33] fix: Format::addU separates digits, not the blanks of a
 padded field

addU(100, 12 wide, separator) printed separators between the leading blanks.
---
 src/Format.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 61f84b5..5a7f960 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -210,7 +210,6 @@ namespace SoDa {
     case 'd':
     case 'D':
     default:
-      if(w != 0) pre_ss << std::setw(w);
       pre_ss << std::dec << v; 
       valstr = pre_ss.str();
       prefix = "";		
@@ -248,6 +247,12 @@ namespace SoDa {
       result = prefix + newstr; 
     }
 
+    // decimal fields are padded with blanks, after the separators are in place
+    if(not_hex && not_oct) {
+      if(w != 0) ss << std::setw(w);
+      ss << result; 
+      result = ss.str();
+    }
     
     insertField(result);
     return *this;     
-- 
2.43.0


From 78772714302bbb4cbd45246beab7f7d956e35b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 05/33] fix: Format::addF 'e' normalizes every value to 1 <= m
 < 1000

950 with one digit came out as "1000e+0", exact powers of ten got a wrong
number of digits, subnormals were printed with a wrong value, and
5e-324 (where the scale factor underflows) never terminated.
---
 src/Format.cxx | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 5a7f960..8b7ed14 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -287,48 +287,41 @@ namespace SoDa {
   int log1k(double v, double & v_norm, int sig_digs) {
     int ret = 0;
     v_norm = v; 
-    // round it first
-    double remul = 1.0; 
-    while(v_norm >= 10.0) {
-      v_norm = v_norm / 10.0;
-      remul = remul * 10.0;
-    }
+    // take the log1k first -- normalize to the range 1 to 1000
     while(v_norm < 1.0) {
-      v_norm = v_norm * 10.0;
-      remul = remul / 10.0;
+      ret -= 3; 
+      v_norm = v_norm * 1000.0; 
+    }
+    while(v_norm >= 1000.0) {
+      ret += 3; 
+      v_norm = v_norm / 1000.0; 
     }
+
     // now create the round incr
     double ri = 5;    
     for(int s = 0; s < sig_digs; s++) {
       ri = ri / 10.0;
     }
+    // that's good for one integer digit, but we might have two or three.
+    for(double m = 10.0; v_norm >= m; m = m * 10.0) {
+      ri = ri * 10.0; 
+    }
     // std::cerr << "ri = " << ri << " sig_digs " << sig_digs << "\n";
     // now do the round-up add
     v_norm += ri;
     //std::cerr << "Now v_norm = " << v_norm << "\n";
 
-    // now restore v_norm to the original magnitude more or less
-    v_norm = v_norm * remul;
-
-    // ok, now take the log1k
-    if(v_norm < 1.0) {
-      while(v_norm < 1.0) {
-	ret -= 3; 
-	v_norm = v_norm * 1000.0; 
-      }
-    }
-    else {
-      while(v_norm > 1000.0) {
-	ret += 3; 
-	v_norm = v_norm / 1000.0; 
-      }
+    // did the round-up take us out of the range?
+    if(v_norm >= 1000.0) {
+      ret += 3; 
+      v_norm = v_norm / 1000.0; 
     }
     return ret; 
   }
 
   int getIntPartWidth(double v) {
     int ret = 0; 
-    while(v > 1.0) {
+    while(v >= 1.0) {
       v = v / 10.0; 
       ret++; 
     }
-- 
2.43.0


From b9564540b0e7124ae6bd5ac03ba88a07d55b0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 06/33] fix: Format::addF 'e' prints any number of fraction
 digits

The fraction was accumulated in an int, which overflows with more than
nine fraction digits: M_PI with 12 digits was printed as garbage.
---
 src/Format.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 8b7ed14..7b37281 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -329,7 +329,7 @@ namespace SoDa {
   }
   
   void fractionate(double v, unsigned int significant_digits, 
-		   int & int_part, int & frac_part,
+		   int & int_part, std::string & frac_part,
 		   int & int_wid, int & frac_wid) {
     // v is in the range 1 to 1000 - epsilon. 
     // How many digits did it take up?
@@ -359,14 +359,14 @@ namespace SoDa {
     
     //std::cerr << "dfrac_part " << dfrac_part  << "\n";
     // now trim the fractional part. 
-    frac_wid = 0; frac_part = 0;
+    frac_wid = 0; frac_part.clear();
     int sd_left = significant_digits - iw;
     //std::cerr << "sd_left = " << sd_left << "\n";
     while(sd_left > 0) {
       dfrac_part = dfrac_part * 10.0;
       //std::cerr << "New dfrac_part " << dfrac_part << " floor(dfp) " << floor(dfrac_part) 
       //		<< " frac_part " << frac_part << "\n";
-      frac_part = 10 * frac_part + floor(dfrac_part);
+      frac_part.push_back('0' + (int) floor(dfrac_part));
       double junk;
       dfrac_part = modf(dfrac_part, &junk);
       //std::cerr << "new frac_part " << frac_part 
@@ -451,7 +451,8 @@ namespace SoDa {
 	int exp_val = log1k(av, av_norm, significant_digits);
 	//std::cerr << "av_norm " << av_norm << " exp_val " << exp_val << "\n";
 	// now do the fraction and rounding
-	int frac_part, int_part, int_wid, frac_wid;
+	int int_part, int_wid, frac_wid;
+	std::string frac_part; 
 	fractionate(av_norm, significant_digits,
 		    int_part, frac_part, 
 		    int_wid, frac_wid);
@@ -465,8 +466,7 @@ namespace SoDa {
 	// if we have no significant fraction digits,
 	// leave them off.
 	if(frac_wid > 0) {
-	  ss << '.' << std::setw(frac_wid) << std::right 
-	     << std::setfill('0') << frac_part;
+	  ss << '.' << frac_part;
 	}
 	// now the exponent
 
-- 
2.43.0


From 372469e597c13dacaac94618f61e5a6ec9f486ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 07/33] fix: Format::addF prints the sign of minus infinity

---
 src/Format.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 7b37281..fd73c51 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -403,7 +403,7 @@ namespace SoDa {
       return *this;
     }
     else if (std::isinf(v)) {
-      insertField(pad("inf", width));
+      insertField(pad((v < 0) ? "-inf" : "inf", width));
       return *this;
     }
     
-- 
2.43.0


From b17a4e11837594ff171aff2796c86ac01efd596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 08/33] fix: Format::addF uses Format::separator as the radix
 character

It was ignored for everything but a zero in format 'e'.
---
 src/Format.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index fd73c51..a07c966 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -466,7 +466,7 @@ namespace SoDa {
 	// if we have no significant fraction digits,
 	// leave them off.
 	if(frac_wid > 0) {
-	  ss << '.' << frac_part;
+	  ss << separator << frac_part;
 	}
 	// now the exponent
 
@@ -487,7 +487,13 @@ namespace SoDa {
       }
     }
 
-    insertField(ss.str());
+    std::string result = ss.str();
+    if(fmt != 'e') {
+      // the stream conversions always use '.'
+      std::replace(result.begin(), result.end(), '.', separator);
+    }
+
+    insertField(result);
     return *this;     
   }
 
-- 
2.43.0


From d726426c9d7640f0c9d06729c35c9f49a0e78fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 09/33] fix: Format::addF 'e' pads a zero to the field width

---
 src/Format.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Format.cxx b/src/Format.cxx
index a07c966..2287c3c 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -437,6 +437,10 @@ namespace SoDa {
 	//std::cerr << "Got zero " << v << "\n";
 	ss << "0" << separator << std::left 
 	   << std::setw(significant_digits - 1) << std::setfill('0') << 0 << "e0";
+	// and the padding
+	std::string zero_str = pad(ss.str(), width);
+	ss.str(""); 
+	ss << zero_str; 
       }
       else {
 	// get the abs val
-- 
2.43.0


From e0d50b7e6d5225f3b1347205d089ce2a3db757b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 10/33] fix: Format_ext::addU and addI take the same arguments
 as in Format

addU truncated its value to an unsigned int, addI lacked the fill character.
---
 include/Format.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Format.hxx b/include/Format.hxx
index d20e841..e2bd254 100644
--- a/include/Format.hxx
+++ b/include/Format.hxx
@@ -582,12 +582,12 @@ namespace SoDa {
      * a reference to the derived class.   So do all the other 
      * shadow methods here. 
      */
-    T & addI(int v, unsigned int width = 0, char sep = '\000') { 
-      Format::addI(v, width, sep);
+    T & addI(int v, unsigned int width = 0, char sep = '\000', char fill = '\000') { 
+      Format::addI(v, width, sep, fill);
       return *saved_ptr; 
     }
 
-    T & addU(unsigned int v, char fmt = 'd', unsigned int width = 0,
+    T & addU(unsigned long v, char fmt = 'd', unsigned int width = 0,
 	     char sep = '\000',
 	     unsigned int group_count = 4) {
       Format::addU(v, fmt, width, sep, group_count);
-- 
2.43.0


From 3adfa0be96b93a122ee3ffaa8fcd4598063477c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 11/33] fix: Options::getPosArg(numPosArgs()) read past the end
 of the vector

---
 src/Options.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 59fa849..25a72e8 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -78,7 +78,7 @@ namespace SoDa {
   }
 
   std::string Options::getPosArg(int idx) {
-    if(idx > pos_arg_vec.size()) return std::string("");
+    if((idx < 0) || (idx >= pos_arg_vec.size())) return std::string("");
     else return pos_arg_vec[idx]; 
   }
 
-- 
2.43.0


From c0ff6e473cfa9a3b60a0623b5657900071507310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 12/33] fix: vector options of signed type accept negative
 values

"--ivec -3" was rejected because -3 was taken for an unknown switch,
though scalar options of the same type accept it.
---
 include/Options.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Options.hxx b/include/Options.hxx
index 0f35472..993d612 100644
--- a/include/Options.hxx
+++ b/include/Options.hxx
@@ -586,7 +586,7 @@ posargs =
 	     const std::string & doc_str, 
 	     const std::function<bool(T)> & test_func = allGood, 
 	     const std::string & err_msg = std::string("")) :
-	OptBase(doc_str, err_msg, false), 
+	OptBase(doc_str, err_msg, std::is_signed<T>::value), 
 	argvec_p(v_vec), 
 	test_func(test_func)
       {
-- 
2.43.0


From f54345534f288b8a95d6e36c7ba776d6bddfbd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 13/33] fix: a failed Options::parse does not affect the next
 one

When a line ended after (or failed at) an option of signed type the
first option of the next line was taken for a positional argument.
---
 src/Options.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 25a72e8..0b0693e 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -175,6 +175,8 @@ namespace SoDa {
 
   bool Options::parse(std::list<std::string> tokens) {
     OptBase_p arg_p = nullptr;
+    // a previous parse may have stopped just before a signed value
+    waiting_for_signed = false; 
     try {
     while(!tokens.empty()) {
       std::string tkn = tokens.front();
-- 
2.43.0


From 138bd17a217405daaa3468d339beefcf0a357b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 14/33] fix: Options::parse handles an option at the end of the
 line

An option without a value at the end of the line was not marked as
present, and when it has no default its missing value went unnoticed.
---
 src/Options.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Options.cxx b/src/Options.cxx
index 0b0693e..c9258b6 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -243,6 +243,14 @@ namespace SoDa {
 	}
       }
     }
+
+    // the last option on the line may still be waiting for its value
+    if(arg_p != nullptr) {
+      if(!arg_p->hasDefault()) {
+	throw BadOptValueException(arg_p->long_name, "", "is missing."); 
+      }
+      arg_p->setPresent(); 
+    }
     }
     catch (BadOptValueException & exc) {
       std::cerr << exc.what() << "\n";
-- 
2.43.0


From 3164656c5426e548d8afa31ef2a69a208b870542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 15/33] fix: Options::parseKeyValue splits each item at its
 first '='

An empty item ("a=1,,b=2") dereferenced an empty list, "a=" set a to
"a", and "a=b=c" set it to "c".
---
 src/Options.cxx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index c9258b6..3ef2319 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -324,11 +324,19 @@ namespace SoDa {
     
     for(auto kv_a : l_kvp) {
       auto kv = SoDa::squashSpaces(kv_a);
+
+      // skip empty items
+      if(kv.empty()) continue; 
       
-      // now we've got a key=value pair.  Split that at the =
-      auto kvp = SoDa::split(kv, std::string("="));
-      auto key = kvp.front();
-      auto value = kvp.back();
+      // now we've got a key=value pair.  Split that at the (first) =
+      auto eq_pos = kv.find('=');
+      auto key = kv.substr(0, eq_pos);
+      auto value = (eq_pos == std::string::npos) ? key : kv.substr(eq_pos + 1); 
+
+      if(key.empty()) {
+	std::cerr << BadOptionNameException(kv).what() << "\n";
+	return false; 
+      }
 
       // ok. now we're going to re-use some stuff from the "parse a
       // command line" functions
-- 
2.43.0


From e6da8515bb5d03ffb9eaf7eaf4a5542f6d423ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 16/33] fix: values in key=value lists may begin with '-'

"name=-x" was taken for an unknown option -x when name has a default.
---
 src/Options.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Options.cxx b/src/Options.cxx
index 3ef2319..80fb12f 100644
--- a/src/Options.cxx
+++ b/src/Options.cxx
@@ -183,11 +183,12 @@ namespace SoDa {
       tokens.pop_front();
 
       int sw_len;
-      if((arg_p == nullptr) || (arg_p->hasDefault())) {
+      if((arg_p == nullptr) || (arg_p->hasDefault() && !is_kvp)) {
 	sw_len = isSwitch(tkn);      	
       }
       else {
 	// we have an argpointer and there is no default
+	// (or it came from a key=value pair, which always has a value)
 	// we need to eat the next token. 
 	sw_len = 0; 
       }
-- 
2.43.0


From 281ee9795c12f8ee13af68608dd1108dfeceee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 17/33] fix: squashSpaces of an empty or blank string is
 defined

front() and back() were called on the empty string.
---
 src/Split.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Split.cxx b/src/Split.cxx
index 3491f38..ad21f63 100644
--- a/src/Split.cxx
+++ b/src/Split.cxx
@@ -45,8 +45,8 @@ namespace SoDa {
     size_t pos = 0;
 
     // trim the string. 
-    while(ret.front() == ' ') ret.erase(0, 1);
-    while(ret.back() == ' ') ret.pop_back();
+    while(!ret.empty() && (ret.front() == ' ')) ret.erase(0, 1);
+    while(!ret.empty() && (ret.back() == ' ')) ret.pop_back();
     
     while((pos = ret.find(' ', pos)) != std::string::npos) {
       if((pos < ret.length() - 1) && (ret[pos+1] == ' ')) {
-- 
2.43.0


From eae186d4df0f92b54c9e30ea55ac046fd331b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 18/33] fix: PropNode::getProp descends to the node that the
 path names

It looked up every component in the same dictionary and always
returned the node it started from, so no value could ever be read.
---
 src/PropertyTree.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 9494a63..bf00c6d 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -73,8 +73,9 @@ namespace SoDa {
       return this; 
     }
     else if(dictionary.find(pathlist.front()) != dictionary.end()) {
+	auto child = dictionary[pathlist.front()];
 	pathlist.pop_front();
-	return getPropRecursive(pathlist, orig_pathname, throw_exception);
+	return child->getPropRecursive(pathlist, orig_pathname, throw_exception);
     }
     else {
       if(throw_exception) {
-- 
2.43.0


From 25337577f3275adb9a4f2aa65dde2ea5aa21fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 19/33] fix: PropertyTree::get throws PropertyNotFound only if
 asked to

---
 include/PropertyTree.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 36b7fb4..3e3f8e1 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -133,7 +133,8 @@ namespace SoDa {
       PropNode * pn = root->getProp(pathname, throw_exception); 
       
       if(pn == nullptr) {
-	throw PropNode::PropertyNotFound(pathname); 
+	// getProp has already thrown an exception if we want one. 
+	return false; 
       }
       
       return pn->get<T>(v, throw_exception);
-- 
2.43.0


From fbee7583525fbe34518378521308ffae2ccbe830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 20/33] fix: PropNode::get of a string returns the whole value

It stopped at the first blank and failed on an empty value.
---
 include/PropertyTree.hxx | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 3e3f8e1..1e816e1 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -167,9 +167,8 @@ namespace SoDa {
        * @throws SoDa::PropertyTree::BadPropertyType
        */
       template<typename T> bool get(T & v, bool throw_exception = false) {
-	std::stringstream ss(val_string, std::ios_base::in);
-	ss >> v; 
-	if(ss.fail()) {
+	// only terminal nodes have a value.
+	if(!is_terminal || !convert(v)) {
 	  if(throw_exception) {
 	    throw PropertyTree::PropNode::BadPropertyType(getPathName(), typeid(v).name(), val_string);
 	      }
@@ -252,6 +251,23 @@ namespace SoDa {
 				  const std::string & orig_pathname, 
 				  bool throw_exception = false);
 
+      /**
+       * @brief convert the value string
+       * @param v reference to the value we'll set
+       * @returns true if the value string contains a value of type "T"
+       */
+      template<typename T> bool convert(T & v) {
+	std::stringstream ss(val_string, std::ios_base::in);
+	ss >> v; 
+	return !ss.fail();
+      }
+
+      /// a string is the whole value string, blanks and all.
+      bool convert(std::string & v) {
+	v = val_string;
+	return true; 
+      }
+
       
     };
 
-- 
2.43.0


From 1b60193703c70c2d2c4107393a7ec1ee9144347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 21/33] fix: PropNode::getPathName returns the path to the node

It was built from the values of the nodes instead of their keys.
---
 src/PropertyTree.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index bf00c6d..a88486e 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -40,7 +40,14 @@ namespace SoDa {
   std::string PropertyTree::PropNode::getPathName() {
     std::string ret;
     if(parent != nullptr) {
-      ret = parent->getPathName() + ":" + val_string;
+      // find the key that leads from our parent to us.
+      std::string key = val_string;
+      for(auto & v : parent->dictionary) {
+	if(v.second == this) key = v.first; 
+      }
+      ret = parent->getPathName();
+      if(parent->parent != nullptr) ret += ":";
+      ret += key; 
     }
     
     return ret; 
-- 
2.43.0


From 109b2d4b901dec9ef894c792560e2c175264a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 22/33] fix: BadPropertyType names the type

---
 src/PropertyTree.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index a88486e..664b067 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -161,7 +161,7 @@ namespace SoDa {
   PropertyTree::PropNode::BadPropertyType::BadPropertyType(const std::string & path_name, 
 							   const std::string & type_name, 
 							   const std::string & val_string) :
-    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"2\"")
+    Exception(SoDa::Format("PropertyTree::PropNode::BadPropertyType at node name \"%0\" with value string \"%1\" which cannot be converted to type \"%2\"")
 	      .addS(path_name)
 	      .addS(val_string)
 	      .addS(type_name)
-- 
2.43.0


From fe233286779663b8175d24a37a3429ece627f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 23/33] fix: PropertyTreeYAML::readFile throws BadSyntax for a
 malformed file

It is documented, but exceptions of the YAML library came through, and a
file could be left half loaded.
---
 include/PropertyTree.hxx |  5 +++++
 src/PropertyTree.cxx     |  5 +++++
 src/PropertyTreeYAML.cxx | 21 ++++++++++++++++++++-
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 1e816e1..ddcacdb 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -277,6 +277,11 @@ namespace SoDa {
       FileNotFound(const std::string & fname);
     }; 
 
+    class BadSyntax : public SoDa::Exception {
+    public:
+      BadSyntax(const std::string & fname, const std::string & problem);
+    }; 
+
   protected:
     PropNode * root; 
   };
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 664b067..4d8e829 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -151,6 +151,11 @@ namespace SoDa {
 	      .addS(str).str())
   {
   }
+  PropertyTree::BadSyntax::BadSyntax(const std::string & fname, const std::string & problem) :
+    Exception(SoDa::Format("PropertyTree::BadSyntax in \"%0\": %1")
+	      .addS(fname).addS(problem).str())
+  {
+  }
   PropertyTree::PropNode::PropertyNotFound::PropertyNotFound(const std::string & str) :
     Exception(SoDa::Format("PropertyTree::PropNode::PropertyNotFound \"%0\"")
 	      .addS(str)
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index d73b2ac..e4ac59b 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -50,9 +50,28 @@ namespace SoDa {
     catch(YAML::BadFile & e) {
       throw PropertyTree::FileNotFound(e.what());
     }
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(filename, e.what());
+    }
     
     // now recursively create the tree
-    fillRecurse(TopNode, root);
+    // we don't want to leave half a file in the tree, so build it aside
+    PropertyTree::PropNode file_root(nullptr, "root", false); 
+    try {
+      fillRecurse(TopNode, &file_root);
+    }
+    catch(YAML::Exception & e) {
+      throw PropertyTree::BadSyntax(filename, e.what());
+    }
+
+    for(auto & v : file_root.dictionary) {
+      v.second->parent = root;
+      root->dictionary[v.first] = v.second; 
+    }
+    for(auto v : file_root.prop_list) {
+      v->parent = root; 
+      root->prop_list.push_back(v); 
+    }
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0


From 12b35c7b361753a4a383f32d55bab75b16cc56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 24/33] fix: PropertyTreeYAML accepts sequences at the top and
 in sequences

Reading such a file threw an InvalidNode exception of the YAML library.
---
 src/PropertyTreeYAML.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index e4ac59b..5fd1dc5 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -84,6 +84,13 @@ namespace SoDa {
       prop->prop_list.push_back(pnp); 
       return; 
     }
+    if(node.IsSequence()) {
+      // a sequence at the top of the file, or in another sequence
+      for(auto n : node) {
+	fillRecurse(n, prop);
+      }
+      return; 
+    }
     for(YAML::const_iterator it = node.begin(); 
 	it != node.end(); 
 	++it) {
-- 
2.43.0


From f09d65785df791e3fbadae95b56111b7171dce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 25/33] fix: PropertyTreeYAML rejects an alias to an enclosing
 node

It recursed until the stack overflowed.
---
 include/PropertyTreeYAML.hxx |  3 ++-
 src/PropertyTreeYAML.cxx     | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/PropertyTreeYAML.hxx b/include/PropertyTreeYAML.hxx
index c20c4e0..080e3d4 100644
--- a/include/PropertyTreeYAML.hxx
+++ b/include/PropertyTreeYAML.hxx
@@ -124,7 +124,8 @@ namespace SoDa {
     void writeFile(const std::string & filename); 
   protected: 
     void fillRecurse(const YAML::Node & node, 
-		     PropertyTree::PropNode * prop);
+		     PropertyTree::PropNode * prop,
+		     unsigned int depth = 0);
 
   };
     
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 5fd1dc5..5a9ab8e 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -75,7 +75,12 @@ namespace SoDa {
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-				     PropertyTree::PropNode * prop) {
+				     PropertyTree::PropNode * prop,
+				     unsigned int depth) {
+    // yaml-cpp won't parse a file nested this deep. 
+    if(depth > 1000) {
+      throw YAML::ParserException(node.Mark(), "an alias refers to a node that contains it"); 
+    }
     if(node.IsScalar()) {
       auto pnp = new PropertyTree::PropNode(prop, 
 					    node.as<std::string>(), 
@@ -87,7 +92,7 @@ namespace SoDa {
     if(node.IsSequence()) {
       // a sequence at the top of the file, or in another sequence
       for(auto n : node) {
-	fillRecurse(n, prop);
+	fillRecurse(n, prop, depth + 1);
       }
       return; 
     }
@@ -100,7 +105,7 @@ namespace SoDa {
 	// that are either maps or lists or terminals.
 	auto pnp = new PropertyTree::PropNode(prop, "", false);
 	prop->dictionary[it->first.as<std::string>()] = pnp;
-	fillRecurse(YAML::Node (it->second), pnp);
+	fillRecurse(YAML::Node (it->second), pnp, depth + 1);
       }
 
       if(it->second.IsScalar()) {
@@ -117,7 +122,7 @@ namespace SoDa {
 	// or both
 	
 	for(auto n : it->second) {
-	  fillRecurse(n, prop);
+	  fillRecurse(n, prop, depth + 1);
 	}
       }
     }
-- 
2.43.0


From d51e3df8ba6ee06b85e08ebe08c33ec395d80f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:17 +0000
Subject: [PATCH 26/33] fix: PropertyTreeYAML iterated over a sequence node
 after its lifetime

---
 src/PropertyTreeYAML.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 5a9ab8e..6172ffc 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -121,7 +121,9 @@ namespace SoDa {
 	// pass it along, as all prop tree nodes are lists or dictionaries
 	// or both
 	
-	for(auto n : it->second) {
+	// (it->second is part of a temporary, so hang on to a copy)
+	YAML::Node seq(it->second); 
+	for(auto n : seq) {
 	  fillRecurse(n, prop, depth + 1);
 	}
       }
-- 
2.43.0


From b27a020b9c7501ef4a51d968a17290769db8f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 27/33] fix: MailBox::SubscriptionMismatch shows the name of
 the subscription's mailbox

---
 include/MailBox.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 81ec389..6f2f56d 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -193,7 +193,7 @@ namespace SoDa {
   public:
     SubscriptionMismatch(const std::string & should_be
 			 , const std::string & was) : 
-      Exception(should_be, SoDa::Format("caller specified the wrong mailbox")
+      Exception(should_be, SoDa::Format("caller specified the wrong mailbox: %0")
 		       .addS(was).str()) {
     }
   }; 
-- 
2.43.0


From 7efecf118b46f70bca9a3c2ac0ca0fab819aba35 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 28/33] fix: MailBoxBase::convert leaked the demangled type
 names of a failed conversion

---
 include/MailBox.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index 6f2f56d..a6c4280 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -6,6 +6,7 @@
 #include <mutex>
 #include <typeinfo>
 #include <cxxabi.h>
+#include <cstdlib>
 
 #include "Format.hxx"
 #include "Exception.hxx"
@@ -215,11 +216,11 @@ namespace SoDa {
       auto ret = std::dynamic_pointer_cast<T>(p);
       if(ret == nullptr) {
 	int st1, st2; 
-	// this demangling is pretty dicey... 
-	throw BadConversion(p->name, abi::__cxa_demangle(typeid(p).name(), 
-						nullptr, nullptr, &st1), 
-			    abi::__cxa_demangle(typeid(ret).name(), 
-						nullptr, nullptr, &st2));
+	// this demangling is pretty dicey... (the names are ours to free.)
+	std::unique_ptr<char, void (*)(void *)> 
+	  from(abi::__cxa_demangle(typeid(p).name(), nullptr, nullptr, &st1), std::free), 
+	  to(abi::__cxa_demangle(typeid(ret).name(), nullptr, nullptr, &st2), std::free);
+	throw BadConversion(p->name, from.get(), to.get());
       }
       return ret; 
     }
-- 
2.43.0


From 76904d69a82a14a4933e7b297e501ee91db3a611 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 29/33] fix: PropertyTree never freed its nodes

---
 include/PropertyTree.hxx | 13 +++++++++++++
 src/PropertyTree.cxx     | 11 +++++++++--
 src/PropertyTreeYAML.cxx |  6 +++---
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index ddcacdb..7b511d3 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -7,6 +7,7 @@
 #include <ios>
 #include <map>
 #include <list>
+#include <memory>
 #include <typeinfo>
 #include "Exception.hxx"
 #include "Format.hxx"
@@ -82,6 +83,7 @@ namespace SoDa {
      */
     PropertyTree();
 
+    virtual ~PropertyTree() = default; 
 
 
     /**
@@ -283,7 +285,18 @@ namespace SoDa {
     }; 
 
   protected:
+    /**
+     * @brief create a node. It lives as long as this tree (and the
+     * copies of this tree, which share its nodes.)
+     */
+    PropNode * newNode(PropNode * parent, 
+		       const std::string & val_string, 
+		       bool is_terminal); 
+
     PropNode * root; 
+
+  private: 
+    std::shared_ptr<std::list<PropNode>> nodes; 
   };
     
 }
diff --git a/src/PropertyTree.cxx b/src/PropertyTree.cxx
index 4d8e829..ee6598d 100644
--- a/src/PropertyTree.cxx
+++ b/src/PropertyTree.cxx
@@ -33,8 +33,15 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 
 namespace SoDa {
-  PropertyTree::PropertyTree() {
-    root = new PropNode(nullptr, "root", false);
+  PropertyTree::PropertyTree() : nodes(std::make_shared<std::list<PropNode>>()) {
+    root = newNode(nullptr, "root", false);
+  }
+
+  PropertyTree::PropNode * PropertyTree::newNode(PropNode * parent, 
+						 const std::string & val_string, 
+						 bool is_terminal) {
+    nodes->emplace_back(parent, val_string, is_terminal); 
+    return & nodes->back(); 
   }
 
   std::string PropertyTree::PropNode::getPathName() {
diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 6172ffc..77936e8 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -82,7 +82,7 @@ namespace SoDa {
       throw YAML::ParserException(node.Mark(), "an alias refers to a node that contains it"); 
     }
     if(node.IsScalar()) {
-      auto pnp = new PropertyTree::PropNode(prop, 
+      auto pnp = newNode(prop, 
 					    node.as<std::string>(), 
 					      true);
 	
@@ -103,13 +103,13 @@ namespace SoDa {
       if(it->second.IsMap()) {
 	// New node. It will have children
 	// that are either maps or lists or terminals.
-	auto pnp = new PropertyTree::PropNode(prop, "", false);
+	auto pnp = newNode(prop, "", false);
 	prop->dictionary[it->first.as<std::string>()] = pnp;
 	fillRecurse(YAML::Node (it->second), pnp, depth + 1);
       }
 
       if(it->second.IsScalar()) {
-	auto pnp = new PropertyTree::PropNode(prop, 
+	auto pnp = newNode(prop, 
 					      it->second.as<std::string>(), 
 					      true);
 	
-- 
2.43.0


From 316d9acae79db380dec2653c3a57d9f3216fcc97 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 30/33] fix: Format's numbers changed with the global locale

---
 src/Format.cxx | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/Format.cxx b/src/Format.cxx
index 2287c3c..2930edd 100644
--- a/src/Format.cxx
+++ b/src/Format.cxx
@@ -39,6 +39,13 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 namespace SoDa {
   char Format::separator = '.';
 
+  namespace {
+    // Numbers look the same whatever the global locale may be. (See Format::separator.)
+    struct PlainStream : public std::stringstream {
+      PlainStream() { imbue(std::locale::classic()); }
+    };
+  }
+
   Format::FmtStringSeg::FmtStringSeg(const std::string & str) {
     seg_type = LITERAL;
     val = str; 
@@ -142,7 +149,7 @@ namespace SoDa {
   }
 
   Format & Format::addI(int v, unsigned int w, char sep, char fill) {
-    std::stringstream ss;
+    PlainStream ss;
     if(fill != '\000') {
       ss << std::setfill(fill);
     }
@@ -154,7 +161,7 @@ namespace SoDa {
     }
     else {
       // print with comma separators
-      std::stringstream pre_ss;
+      PlainStream pre_ss;
       pre_ss << v;
       std::string vstr(pre_ss.str());
       std::reverse(vstr.begin(), vstr.end());
@@ -184,8 +191,8 @@ namespace SoDa {
 			char sep,
 			unsigned int group_count)
 {
-    std::stringstream ss;
-    std::stringstream pre_ss;
+    PlainStream ss;
+    PlainStream pre_ss;
     std::string result; 
     std::string valstr; 
     bool not_hex = true; 
@@ -221,7 +228,7 @@ namespace SoDa {
       result = (prefix + valstr);
     }
     else {
-      std::stringstream new_ss;
+      PlainStream new_ss;
       int i = 0;
       std::reverse(valstr.begin(), valstr.end());
       std::string newstr; 
@@ -261,7 +268,7 @@ namespace SoDa {
   std::string Format::toHex(unsigned long v, int width, bool uppercase) {
     // first build the string
     std::string ret;
-    std::stringstream ss;
+    PlainStream ss;
     if(uppercase) {
       ss << std::uppercase; 
     }
@@ -275,7 +282,7 @@ namespace SoDa {
 
   std::string Format::toOct(unsigned long v, int width) {
     std::string ret;
-    std::stringstream ss;
+    PlainStream ss;
     ss.setf(std::ios::showbase);
     ss << std::right << std::setfill('0');    
     ss << std::setw(width) << std::oct << v; 
@@ -388,7 +395,7 @@ namespace SoDa {
   }
   
   Format & Format::addF(double v, char fmt, unsigned int width, unsigned int significant_digits) {
-    std::stringstream ss;    
+    PlainStream ss;    
     //std::cerr << "v = " << v << " width = " << width 
     //	      << " significant_digits = " << significant_digits
     //	      << "\n";
@@ -572,7 +579,7 @@ namespace SoDa {
 	ret_string = ret_string + fld.val;
       }
       else if(fld.seg_type == FmtStringSeg::FMT_VAL) {
-	std::stringstream ss;
+	PlainStream ss;
 	ss << '%' << fld.idx;
 	ret_string = ret_string + ss.str();
 	unfilled_count++; 
-- 
2.43.0


From d3b79fac4e433070713c95ac656f3f25508abc15 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 31/33] fix: PropertyTree read numbers by the rules of the
 global locale

---
 include/PropertyTree.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/PropertyTree.hxx b/include/PropertyTree.hxx
index 7b511d3..4d28743 100644
--- a/include/PropertyTree.hxx
+++ b/include/PropertyTree.hxx
@@ -260,6 +260,8 @@ namespace SoDa {
        */
       template<typename T> bool convert(T & v) {
 	std::stringstream ss(val_string, std::ios_base::in);
+	// the meaning of a file doesn't depend on the global locale
+	ss.imbue(std::locale::classic()); 
 	ss >> v; 
 	return !ss.fail();
       }
-- 
2.43.0


From d376f371f8d95391ab2467310270d4007b9f0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 32/33] fix: MailBox::subscribe kept its lock forever when
 memory ran out

The subscription was created first. When there was no memory left for its
queue, it was destroyed with the lock held, and waited for that lock.
---
 include/MailBox.hxx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/MailBox.hxx b/include/MailBox.hxx
index a6c4280..7c79c39 100644
--- a/include/MailBox.hxx
+++ b/include/MailBox.hxx
@@ -306,12 +306,20 @@ namespace SoDa {
      */
     Subscription subscribe() {
       std::lock_guard<std::mutex> lock(mtx);	      
-      // what will the subscriber number be? 
-      Subscription ret(new SubscriptionCl(this,
-					  subscription_counter));
-
       // make a subscriber queue
-      message_queues[subscription_counter] = std::queue<std::shared_ptr<T>>();
+      message_queues[subscription_counter];
+
+      // (a subscription gives up its queue when it goes away, and it
+      // takes the lock to do that. So it must be the last thing to fail.)
+      Subscription ret; 
+      try {
+	// what will the subscriber number be? 
+	ret.reset(new SubscriptionCl(this, subscription_counter));
+      }
+      catch(...) {
+	message_queues.erase(subscription_counter);
+	throw; 
+      }
       
       subscription_counter++;
       return ret;
-- 
2.43.0


From 8c2745ebfdfd0fc17cb922837db0d5512a136b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:09 +0000
Subject: [PATCH 33/33] fix: readFile could leave half a file in the tree when
 memory ran out

---
 src/PropertyTreeYAML.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/PropertyTreeYAML.cxx b/src/PropertyTreeYAML.cxx
index 77936e8..fd6b47e 100644
--- a/src/PropertyTreeYAML.cxx
+++ b/src/PropertyTreeYAML.cxx
@@ -64,14 +64,19 @@ namespace SoDa {
       throw PropertyTree::BadSyntax(filename, e.what());
     }
 
+    // nor half of it if we run out of memory here
+    auto dictionary = root->dictionary; 
+    auto prop_list = root->prop_list; 
     for(auto & v : file_root.dictionary) {
       v.second->parent = root;
-      root->dictionary[v.first] = v.second; 
+      dictionary[v.first] = v.second; 
     }
     for(auto v : file_root.prop_list) {
       v->parent = root; 
-      root->prop_list.push_back(v); 
+      prop_list.push_back(v); 
     }
+    root->dictionary.swap(dictionary);
+    root->prop_list.swap(prop_list); 
   }
   
   void PropertyTreeYAML::fillRecurse(const YAML::Node & node,
-- 
2.43.0

