From 5441821d2a3e2383d71707beeeec3ca9947eb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:06 +0000
Subject: [PATCH 01/59] fix: Timer: take whole days, not hours, off the elapsed
 time before splitting the rest

GetTimeStruct() stores the number of days in an hours duration; subtracting
it removed one hour per day, so for 24 h and more the hours exceeded a day
and the components did not add up to the elapsed time.
---
 src/General/Timer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 960a171..351a0fa 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -71,11 +71,11 @@ struct Timer::time Timer::GetTimeStruct() const {
     t.tp = duration_cast<microseconds>(toc-tic+offset);
 
     t.days         = duration_cast<hours>(toc-tic+offset) / 24;
-    t.hours        = duration_cast<hours>((toc-t.days)-tic+offset);
-    t.minutes      = duration_cast<minutes>((toc-t.days-t.hours)-tic+offset);
-    t.seconds      = duration_cast<seconds>((toc-t.days-t.hours-t.minutes)-tic+offset);
-    t.milliseconds = duration_cast<milliseconds>((toc-t.days-t.hours-t.minutes-t.seconds)-tic+offset);
-    t.microseconds = duration_cast<microseconds>((toc-t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+    t.hours        = duration_cast<hours>((toc-t.days*24)-tic+offset);
+    t.minutes      = duration_cast<minutes>((toc-t.days*24-t.hours)-tic+offset);
+    t.seconds      = duration_cast<seconds>((toc-t.days*24-t.hours-t.minutes)-tic+offset);
+    t.milliseconds = duration_cast<milliseconds>((toc-t.days*24-t.hours-t.minutes-t.seconds)-tic+offset);
+    t.microseconds = duration_cast<microseconds>((toc-t.days*24-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
 
     return t;
 }
-- 
2.43.0


From ee4662fc653778e15bd49c65fb944c122a57f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:51 +0000
Subject: [PATCH 02/59] fix: Matrix: assignment, += and vector*matrix index
 their operands correctly

The three operators used mat[i] on matrices and l(j,i) on vectors, so any
use of them failed to compile.
---
 include/softlib/General/Matrix.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0bcff02..eaa01b7 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -124,7 +124,7 @@ unsigned int Matrix<M,N,T>::Cols() const { return N; }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = mat[i];
+        elems[i] = mat(i);
 
     return *this;
 }
@@ -137,7 +137,7 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator+=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] += mat[i];
+        elems[i] += mat(i);
 
     return *this;
 }
@@ -351,7 +351,7 @@ Vector<N,T> operator*(const Vector<M,T>& l, const Matrix<M,N,T>& r) {
     for (unsigned int i = 0; i < N; i++) {
         T sum = 0;
         for (unsigned int j = 0; j < M; j++)
-            sum += l(j,i) * r[j];
+            sum += l[j] * r(j,i);
 
         vec[i] = sum;
     }
-- 
2.43.0


From 866a9b0c62f8da05a36edee78b849094939c960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:51 +0000
Subject: [PATCH 03/59] fix: Matrix: scalar products multiply, and scalar -
 matrix has the right sign

---
 include/softlib/General/Matrix.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index eaa01b7..20723e7 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -281,7 +281,8 @@ Matrix<M,N,T> operator-(const Matrix<M,N,T>& lhs, const T rhs) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator-(const T lhs, const Matrix<M,N,T>& rhs) {
     Matrix<M,N,T> C(rhs);
-    C -= lhs;
+    for (unsigned int i = 0; i < M*N; i++)
+        C(i) = lhs - C(i);
     return C;
 }
 
@@ -311,13 +312,13 @@ Matrix<M,K,T> operator*(const Matrix<M,N,T>& l, const Matrix<N,K,T>& r) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const Matrix<M,N,T>& l, const T r) {
     Matrix<M,N,T> C(l);
-    C += r;
+    C *= r;
     return C;
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const T l, const Matrix<M,N,T>& r) {
     Matrix<M,N,T> C(r);
-    C += l;
+    C *= l;
     return C;
 }
 
-- 
2.43.0


From 0f9040e6411088373abd9e907a069b23737d8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:51 +0000
Subject: [PATCH 04/59] fix: Matrix: *= no longer reads elements it has already
 overwritten

---
 include/softlib/General/Matrix.tcc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 20723e7..782e5a9 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -192,16 +192,21 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator-=(const T s) {
  */
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,M,T>& mat) {
+    T prod[M*N];
+
     for (unsigned int i = 0; i < M; i++) {
         for (unsigned int j = 0; j < M; j++) {
             T sum = 0;
             for (unsigned k = 0; k < N; k++)
                 sum += elems[i*N+k] * mat(k,j);
 
-            elems[i*N+j] = sum;
+            prod[i*N+j] = sum;
         }
     }
 
+    for (unsigned int i = 0; i < M*N; i++)
+        elems[i] = prod[i];
+
     return *this;
 }
 
-- 
2.43.0


From 1f1eef3c012e67a3d0dd8b91a124c9b4b2e2078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:51 +0000
Subject: [PATCH 05/59] fix: SOFTLibException: keep the last character of long
 messages, free the buffer

---
 include/softlib/SOFTLibException.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/softlib/SOFTLibException.h b/include/softlib/SOFTLibException.h
index 4620bca..4d44a80 100644
--- a/include/softlib/SOFTLibException.h
+++ b/include/softlib/SOFTLibException.h
@@ -30,9 +30,11 @@ class SOFTLibException : public std::exception {
 				this->errormsg = msg;
 			} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {
 				buffer = (char*)realloc(buffer, sizeof(char)*(n+1));
-				n = snprintf(buffer, n, msg.c_str(), std::forward<Args>(args) ...);
+				n = snprintf(buffer, n+1, msg.c_str(), std::forward<Args>(args) ...);
 				this->errormsg = buffer;
 			} else this->errormsg = buffer;
+
+			free(buffer);
         }
 
 		virtual const char* what() const throw();
-- 
2.43.0


From f33142d31bd3b5ffdf98e5df088176a538acf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:32 +0000
Subject: [PATCH 06/59] fix: RKDP45: dense output refuses times outside the
 integrated interval and accepts them in any order

---
 include/softlib/Integrator/RKDP45.tcc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..06437c2 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,10 +95,23 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	/* (without coefficients there is nothing to interpolate in; they
+	 * are generated for every step, starting with the first) */
+	if (rcont1 == NULL || this->ntimesteps < 2)
+		throw SOFTLibException("Dense output was requested, but no step with dense output has been taken.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
-		/* Find next time */
+		if (T < this->time[0])
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[0]
+            );
+
+		/* Find the step containing T (times may be given in any order) */
+		while (it > 0 && this->time[it] > T)
+			it--;
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
 
-- 
2.43.0


From 51175d04611232a15b12ebac2780b047a1e56bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 07/59] fix: PeakedIntegration: never evaluate the integrand
 outside the integration limits

---
 src/Integration/PeakedIntegration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 1044351..de91e08 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -51,9 +51,10 @@ slibreal_t PeakedIntegration::Evaluate(
     if (falloff == 0)
         throw SOFTLibException("PeakedIntegral: The fall-off must be non-zero.");
     
+    // (outside of [a, b], the integrand does not contribute)
     delta = falloff;
-    fpval = f(maximum+delta);
-    fmval = f(maximum-delta);
+    fpval = (maximum+delta < b) ? f(maximum+delta) : 0;
+    fmval = (maximum-delta > a) ? f(maximum-delta) : 0;
 
     while (max(fpval, fmval) > cf) {
         if (fpval > fmax)
-- 
2.43.0


From 6b5c3be4b61b6e6b532c876690e75f86832eea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 08/59] fix: ProgressTracker: take the report number inside the
 critical section

---
 src/General/ProgressTracker.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index 0e67b6e..aa1dbfd 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -76,7 +76,7 @@ void ProgressTracker::UpdateNext() {
  * Print progress (if necessary).
  */
 void ProgressTracker::PrintProgress(const long long int i) {
-    const long long int index = this->nextindex;
+    long long int index = 0;
     bool returnImmediately = false;
 
 #ifdef _OPENMP
@@ -85,8 +85,11 @@ void ProgressTracker::PrintProgress(const long long int i) {
 #endif
         if (i < this->next)
             returnImmediately = true;
-        else
+        else {
+            // (another thread may report as soon as this section is left)
+            index = this->nextindex;
             this->UpdateNext();
+        }
 #ifdef _OPENMP
     }
 #endif
-- 
2.43.0


From ef19da609f603beed542ef80dd79a60d24545a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:38 +0000
Subject: [PATCH 09/59] fix: ImageColormap: scale by the width of the range,
 and never convert an out-of-range value to int

---
 include/softlib/ImageGenerator/ImageColormap.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..47e4afa 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -35,8 +35,12 @@ public:
         int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
-        l = floor(i);
+        // (limited to the range of the colormap before it is converted,
+        // since it could otherwise be too large for an integer, or NaN)
+        i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
+        if (i >= (slibreal_t)ncolors) l = (int)ncolors;
+        else if (i >= 0) l = floor(i);
+        else l = -1;
 
         scolor_t clr;
         if (l >= ((int)ncolors)-1) {
-- 
2.43.0


From c1eea2b6beddcca8f408f2cf588f3c8d02af7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:38 +0000
Subject: [PATCH 10/59] fix: ImageGenerator: gen() without a colormap uses the
 default one instead of a null pointer

---
 src/ImageGenerator/ImageGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..e247107 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -35,6 +35,8 @@ void ImageGenerator::gen(
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
     ImageGenerator *igen = GetImageGenerator(type);
+    if (colormap == nullptr)
+        colormap = igen->cmap_gerimap;
     igen->SaveImage(name, img, nrows, ncols, colormap);
     delete igen;
 }
-- 
2.43.0


From e68a1109634ad77a61f4d590acbb4aad4d6822e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 11/59] fix: Lexer: a comment on the last line ends with the
 document

---
 src/Configuration/Script/Lexer.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..a501d3d 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -43,15 +43,11 @@ char ConfigurationScript::nextc() {
 		switch (c) {
 			case '#':
 				// Ignore all characters til end-of-line (or file)
-				do {
-					if (this->cnfbufferpos >= this->cnfbufferlength)
-						break;
-
-					c = this->cnfbuffer[this->cnfbufferpos++];
-				} while (c != 0 && c != '\n');
-
-				// Handle the newline or EOF in a new iteration
-				this->cnfbufferpos--;
+				// (the newline or EOF is handled in a new iteration)
+				while (this->cnfbufferpos < this->cnfbufferlength &&
+					this->cnfbuffer[this->cnfbufferpos] != 0 &&
+					this->cnfbuffer[this->cnfbufferpos] != '\n')
+					this->cnfbufferpos++;
 
 				break;
 			case '\n':
-- 
2.43.0


From 6665cad06d83db66266179d1af040bd9225ee653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 12/59] fix: Interpreter: do not look for tokens after the end
 of the document

---
 src/Configuration/Script/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..2badf7d 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -37,6 +37,9 @@ bool ConfigurationScript::advance() {
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
 	do {
+		// There is nothing after EOF
+		if (tokent() == CTKN_EOF) return false;
+
 		ConfigToken *tkn = *(this->tknstream+1);
 
 		for (auto type : args) {
-- 
2.43.0


From dd217a27f58378766a8a1de6b18c9a6a81939ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 13/59] fix: Lexer: quoted text is never punctuation, and may
 be empty

---
 .../Configuration/ConfigurationScript.h       |  4 ++--
 src/Configuration/Script/Lexer.cpp            | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index e36c1bd..a79f99a 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -119,8 +119,8 @@ private:
 
 	void initbuffer(const std::string&);
 	char nextc();
-	ConfigToken *gettkn(std::string&, ConfigToken*);
-	void pushbuffer(std::string&, std::vector<ConfigToken*>&);
+	ConfigToken *gettkn(std::string&, ConfigToken*, bool quoted=false);
+	void pushbuffer(std::string&, std::vector<ConfigToken*>&, bool quoted=false);
 
 	/* Interpreter properties/methods */
 	std::vector<ConfigToken*>::iterator tknstream;
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index a501d3d..5ea8849 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -71,9 +71,11 @@ char ConfigurationScript::nextc() {
 
 	return 0;
 }
-ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
-	// First we check for simple tokens
-	if (s == "=") {
+ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev, bool quoted) {
+	// First we check for simple tokens (quoted text is never one)
+	if (quoted) {
+		// (continue below)
+	} else if (s == "=") {
 		return new ConfigToken(CTKN_EQUALS, s, prev, this->linecounter, this->charpos, this->file);
     } else if (s == "(") {
         return new ConfigToken(CTKN_LPAR, s, prev, this->linecounter, this->charpos, this->file);
@@ -105,16 +107,17 @@ ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
 	// Else, it must be a name.
 	return new ConfigToken(CTKN_NAME, s, prev, this->linecounter, this->charpos, this->file);
 }
-void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns) {
-	if (buffer.empty()) return;
+void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns, bool quoted) {
+	// (a quoted string is a token even if it is empty)
+	if (buffer.empty() && !quoted) return;
 
     ConfigToken *ct;
 	if (tkns.empty())
 		//tkns.push_back(gettkn(buffer, NULL));
-        ct = gettkn(buffer, nullptr);
+        ct = gettkn(buffer, nullptr, quoted);
 	else
 		//tkns.push_back(gettkn(buffer, &(tkns.back())));
-        ct = gettkn(buffer, tkns.back());
+        ct = gettkn(buffer, tkns.back(), quoted);
 
     tkns.push_back(ct);
 }
@@ -195,7 +198,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 
 		switch (c) {
 			case '"': {
-				pushbuffer(buffer, tkns);
+				pushbuffer(buffer, tkns, this->instring);
 				buffer.clear();
 				this->instring = !this->instring;
 			} break;
-- 
2.43.0


From 671c01759d6ef84bf8001d1c75fe4c7c21f3a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 14/59] fix: ConfigBlock: copied blocks belong to the copy, and
 merging does not share settings

---
 src/Configuration/ConfigBlock.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..a839189 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -19,8 +19,10 @@ ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
@@ -319,7 +321,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
@@ -344,7 +346,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 				}
 			}
 		} else if (allowNew) {
-			this->AddSubBlock(new ConfigBlock(sb[i]));
+			this->AddSubBlock(new ConfigBlock(sb[i]))->SetParent(this);
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(sb[i]->GetName());
-- 
2.43.0


From aaf8199205b2179c7fd3e2d60c3ed876faabfb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 15/59] fix: ConfigBlock: assigning to a setting anew does not
 count as using it

---
 src/Configuration/ConfigBlock.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index a839189..579dbd1 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -54,18 +54,19 @@ ConfigBlock::~ConfigBlock() {
  * values: List of values.
  */
 Setting *ConfigBlock::AddSetting(Setting *set) {
-    if (HasSetting(set->GetName())) {
-        // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
+    for (Setting *s : this->settings) {
+        if (s->HasName(set->GetName())) {
+            // Replace setting (without touching it)
+            s->OverwriteValues(set);
 
-        delete set;
+            delete set;
 
-        return s;
-    } else {
-        this->settings.push_back(set);
-        return set;
+            return s;
+        }
     }
+
+    this->settings.push_back(set);
+    return set;
 }
 
 /**
-- 
2.43.0


From 47705f020b1fd580818ca8975377a0fe89c4b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:14 +0000
Subject: [PATCH 16/59] fix: SettingScript: numbers are recognised only when in
 range and without trailing text

---
 src/Configuration/Script/SettingScript.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..b005f28 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -1,4 +1,5 @@
 
+#include <cstdint>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -183,7 +184,9 @@ bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     size_t end = 0;
 
     try {
-        stoul(value, &end);
+        // (stoul() accepts negative numbers, and has 64 bits)
+        if (stoul(value, &end) > UINT32_MAX || value.find('-') != string::npos)
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
@@ -219,7 +222,10 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
     size_t end = 0;
 
     try {
+        // (stoull() accepts negative numbers)
         stoull(value, &end);
+        if (value.find('-') != string::npos)
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
@@ -242,14 +248,17 @@ bool SettingScript::IsScalar() const {
 }
 bool SettingScript::IsScalar(unsigned int i) const {
 	const string& value = this->values.at(i);
+	size_t end = 0;
 
 	try {
-		stod(value, NULL);
+		stod(value, &end);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
-	return true;
+	return (end == value.length());
 }
 
 /**
@@ -260,11 +269,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 bool SettingScript::IsNumericVector() const {
 	size_t l = this->values.size();
 	for (size_t i = 0; i < l; i++) {
-		try {
-			stod(this->values[i], NULL);
-		} catch (invalid_argument& e) {
+		if (!IsScalar(i))
 			return false;
-		}
 	}
 
 	return true;
-- 
2.43.0


From cdacb96231e183f581d34a156d4b7bdd41b1dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 17/59] fix: SFile_SDT: write numbers with enough digits to
 read them back exactly

---
 src/SFile/SFile_SDT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..690f5c5 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -63,6 +64,9 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
     }
+
+    // Write numbers with enough digits to recover them exactly
+    sdtfile.precision(numeric_limits<double>::max_digits10);
 }
 
 /**
-- 
2.43.0


From 89f8a9cbebfce32146e60d616e98c71773bc11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 18/59] fix: SFile_SDT: GetDoubles returns the copy the caller
 may free, not the stored matrix

---
 src/SFile/SFile_SDT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 690f5c5..98db2df 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -145,7 +145,11 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
-- 
2.43.0


From 9410c16ffbc8c497c470f41359d7d73dd97e71b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 19/59] fix: SFile_SDT: a column, not a general matrix, can be
 read as a vector

---
 src/SFile/SFile_SDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 98db2df..5bd02e2 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -221,7 +221,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From eb10f9d894d5823cda581c643a920406b8bcad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 20/59] fix: SFile_SDT: refuse files that do not exist, and
 keep existing variables when updating

---
 src/SFile/SFile_SDT.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 5bd02e2..cf61328 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -52,11 +52,19 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             Load();
             Close();
             break;
         case SFILE_MODE_UPDATE:
-            sdtfile.open(filename, ios::in | ios::out);
+            // Load the existing variables, and add new ones at the end
+            sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+            Load();
+            Close();
+            sdtfile.open(filename, ios::out | ios::app);
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
-- 
2.43.0


From cdd3a0a4dc84ef3e746c29cb1a333ba8cd596fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 21/59] fix: SFile_HDF5: a missing attribute raises an
 SFileException

---
 src/SFile/SFile_HDF5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..4849263 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -133,7 +133,7 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         attr.read(type, &s);
 
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
@@ -154,7 +154,7 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
 
         attr.read(type, s);
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
-- 
2.43.0


From 7cfe29923d40b8cb326733a46a058908f7c05d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 22/59] fix: SFile_HDF5: do not write outside the dimensions
 array for datasets that are not 1- or 2-dimensional

---
 src/SFile/SFile_HDF5.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 4849263..1e29902 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -207,7 +207,12 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims > 2)
+		throw SFileException("%s: The variable '%s' has more than two dimensions.", filename.c_str(), name.c_str());
+
+	dims[0] = dims[1] = 1;
+	dspace.getSimpleExtentDims(dims);
 	
 	if (ndims == 1) {
         dims[1] = dims[0];
@@ -270,7 +275,12 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims > 2)
+		throw SFileException("%s: The variable '%s' has more than two dimensions.", sf->filename.c_str(), name.c_str());
+
+	d[0] = d[1] = 1;
+	dspace.getSimpleExtentDims(d);
 	
 	if (ndims == 1) {
         *dims = d[0];
-- 
2.43.0


From ca8041acdbd8d7b702c22c8d5ab66a5a269ccb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 23/59] fix: SFile: GetMultiArray handles one-dimensional
 arrays

---
 src/SFile/SFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..ff46839 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -100,6 +100,10 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 	if (ptr == nullptr)
 		return nullptr;
 
+	// A 1-pointer needs no conversion
+	if (ndims < 2)
+		return (void*)ptr;
+
 	// Convert to multidimensional pointer
 	sfilesize_t nel = 1;
 	for (sfilesize_t i = 0; i < ndims; i++)
-- 
2.43.0


From 42ccd8593fe196e0bcf116b14e95ed91d41f4900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 24/59] fix: SFile_MAT: months count from zero in the file
 header

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..8e5a359 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -73,7 +73,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From f3b6dd88af2fb52d52095bf807bc4ddf89ef7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 25/59] fix: SFile_MAT: multidimensional integer arrays get
 their MATLAB class as an attribute

---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8e5a359..1d3f2d3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -299,19 +299,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From fe2ab1c0ebb012af9fa485342acb5cedfb549a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:35 +0000
Subject: [PATCH 26/59] fix: SFile_HDF5: the file pointer is null until a file
 is open

---
 include/softlib/SFile_HDF5.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/softlib/SFile_HDF5.h b/include/softlib/SFile_HDF5.h
index 2bd0ec6..95f5573 100644
--- a/include/softlib/SFile_HDF5.h
+++ b/include/softlib/SFile_HDF5.h
@@ -18,7 +18,7 @@ class SFile_HDF5 : public SFile {
         template<typename T>
         T **GetArray2D(const std::string&, sfilesize_t*, H5::PredType);
 	protected:
-		H5::H5File *file;
+		H5::H5File *file=nullptr;
 	public:
 		SFile_HDF5();
 		~SFile_HDF5();
-- 
2.43.0


From a482f29f37be0f21c81eba5e2bb606c578d81b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:37 +0000
Subject: [PATCH 27/59] fix: SFile: a matrix without rows does not write
 outside its row pointers

---
 src/SFile/SFile.cpp          | 2 +-
 src/SFile/SFile_HDF5.cpp     | 3 ++-
 src/SFile/SFile_SDT.cpp      | 4 ++--
 src/SFile/SFile_SDT.load.cpp | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index ff46839..b2d0aab 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -180,7 +180,7 @@ template<typename Tout, typename Tin>
 Tout **SFile::__Get2DAs(const string& name, sfilesize_t *dims, Tin** (SFile::*f)(const string&, sfilesize_t*), SFile *sf) {
     Tin **a = (sf->*f)(name, dims);
 
-    Tout **b = new Tout*[dims[0]];
+    Tout **b = new Tout*[dims[0] > 0 ? dims[0] : 1];
     b[0] = new Tout[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         b[i] = b[i-1] + dims[1];
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 1e29902..91e879f 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -222,7 +222,8 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 		pointers[0] = data;
 	} else {
 		data = new T[dims[0]*dims[1]];
-		pointers = new T*[dims[0]];
+		pointers = new T*[dims[0] > 0 ? dims[0] : 1];
+		pointers[0] = data;
 		for (i = 0; i < dims[0]; i++) {
 			pointers[i] = data + (i*dims[1]);
 		}
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index cf61328..600a81c 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -148,7 +148,7 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     dims[0] = it->second.nrows;
     dims[1] = it->second.ncols;
 
-    double **narr = new double*[dims[0]];
+    double **narr = new double*[dims[0] > 0 ? dims[0] : 1];
     narr[0] = new double[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
@@ -173,7 +173,7 @@ T **SFile_SDT_Get_IntArray2D(SFile_SDT *s, const string& name, sfilesize_t *dims
     double **l = s->GetDoubles(name, dims);
 
     // Allocate new array
-    T **a = new T*[dims[0]];
+    T **a = new T*[dims[0] > 0 ? dims[0] : 1];
     a[0] = new T[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         a[i] = a[i-1] + dims[1];
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..03727a7 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -59,7 +59,7 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
-    slibreal_t **vals = new slibreal_t*[nrows];
+    slibreal_t **vals = new slibreal_t*[nrows > 0 ? nrows : 1];
     vals[0] = new slibreal_t[nrows*ncols];
 
     for (sfilesize_t i = 0; i < nrows; i++) {
-- 
2.43.0


From 0efbe035a1e1b41483e442cea50dacab1339de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 28/59] fix: SettingSFile: values are stored once, without
 leading zeros

---
 src/Configuration/SFile/SettingSFile.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4cbf8c0..4e0184b 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -57,45 +57,45 @@ void SettingSFile::OverwriteValues(const Setting *s) {
         }
     } else {
         if (s->IsBool()) {
-            vector<bool> *v = new vector<bool>(s->GetNumberOfValues());
+            vector<bool> *v = new vector<bool>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetBool(i));
 
             this->SetValueBool(v);
         } else if (s->IsInteger32()) {
-            vector<int32_t> *v = new vector<int32_t>(s->GetNumberOfValues());
+            vector<int32_t> *v = new vector<int32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger32(i));
 
             this->SetValueInt32(v);
         } else if (s->IsInteger64()) {
-            vector<int64_t> *v = new vector<int64_t>(s->GetNumberOfValues());
+            vector<int64_t> *v = new vector<int64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger64(i));
 
             this->SetValueInt64(v);
         } else if (s->IsUnsignedInteger32()) {
-            vector<uint32_t> *v = new vector<uint32_t>(s->GetNumberOfValues());
+            vector<uint32_t> *v = new vector<uint32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger32(i));
 
             this->SetValueUInt32(v);
         } else if (s->IsUnsignedInteger64()) {
-            vector<uint64_t> *v = new vector<uint64_t>(s->GetNumberOfValues());
+            vector<uint64_t> *v = new vector<uint64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger64(i));
 
             this->SetValueUInt64(v);
         } else if (s->IsNumericVector()) {
-            vector<slibreal_t> *v = new vector<slibreal_t>(s->GetNumberOfValues());
+            vector<slibreal_t> *v = new vector<slibreal_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetScalar(i));
 
             this->SetValueReal(v);
         } else { // String
-            vector<string> *v = new vector<string>(s->GetNumberOfValues());
+            vector<string> *v = new vector<string>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
-                v->push_back(s->GetString());
+                v->push_back(s->GetString(i));
 
             this->SetValueString(v);
         }
@@ -162,7 +162,7 @@ string SettingSFile::GetString(unsigned int index) const {
         throw ConfigurationException("The data in setting '%s' is not of string type.", this->name.c_str());
 }
 vector<slibreal_t> SettingSFile::GetNumericVector() const {
-    vector<slibreal_t> v(GetNumberOfValues());
+    vector<slibreal_t> v;
 
     switch (this->dtype) {
         case DataType::INT32:
-- 
2.43.0


From b8f8f5239b31bacd34c8fa93441fd67b087b3842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 29/59] fix: SettingSFile: overwriting by another setting of
 the same kind keeps its type

---
 src/Configuration/SFile/SettingSFile.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4e0184b..158df3c 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -40,9 +40,13 @@ void SettingSFile::DeleteCurrent() {
  *    of this setting.
  */
 void SettingSFile::OverwriteValues(const Setting *s) {
-    if (typeid(s) == typeid(SettingSFile*)) {
-        const SettingSFile *ss = (SettingSFile*)s;
+    const SettingSFile *ss = dynamic_cast<const SettingSFile*>(s);
 
+    // Nothing to do (and the values must not be freed)
+    if (ss == this)
+        return;
+
+    if (ss != nullptr) {
         switch (ss->dtype) {
             case DataType::BOOL:   this->SetValueBool(new vector<bool>(*(ss->data.b))); break;
             case DataType::INT32:  this->SetValueInt32(new vector<int32_t>(*(ss->data.i32))); break;
-- 
2.43.0


From 99cdc8c105570a6ebc7fb442a67436db1cd917cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 30/59] fix: SettingSFile: copies keep their name, and reals
 and strings can be copied

---
 src/Configuration/SFile/SettingSFile.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 158df3c..37e8820 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -110,16 +110,23 @@ void SettingSFile::OverwriteValues(const Setting *s) {
  * Make a copy of this setting.
  */
 Setting *SettingSFile::Copy() {
+    SettingSFile *c;
+
     switch (this->dtype) {
-        case DataType::BOOL:   return new SettingSFile(new vector<bool>(*(this->data.b)));
-        case DataType::INT32:  return new SettingSFile(new vector<int32_t>(*(this->data.i32)));
-        case DataType::INT64:  return new SettingSFile(new vector<int64_t>(*(this->data.i64)));
-        case DataType::UINT32: return new SettingSFile(new vector<uint32_t>(*(this->data.u32)));
-        case DataType::UINT64: return new SettingSFile(new vector<uint64_t>(*(this->data.u64)));
+        case DataType::BOOL:   c = new SettingSFile(new vector<bool>(*(this->data.b))); break;
+        case DataType::INT32:  c = new SettingSFile(new vector<int32_t>(*(this->data.i32))); break;
+        case DataType::INT64:  c = new SettingSFile(new vector<int64_t>(*(this->data.i64))); break;
+        case DataType::UINT32: c = new SettingSFile(new vector<uint32_t>(*(this->data.u32))); break;
+        case DataType::UINT64: c = new SettingSFile(new vector<uint64_t>(*(this->data.u64))); break;
+        case DataType::REAL:   c = new SettingSFile(new vector<slibreal_t>(*(this->data.r))); break;
+        case DataType::STRING: c = new SettingSFile(new vector<string>(*(this->data.s))); break;
 
         default:
             throw ConfigurationException("The data in setting '%s' is of unrecognized type.", this->name.c_str());
     }
+
+    c->name = this->name;
+    return c;
 }
 
 /************************
-- 
2.43.0


From b9d46827ce7149ac46858b61e2da12343c7aecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:05 +0000
Subject: [PATCH 31/59] fix: SettingSFile: the range of every value is checked,
 not of the first one only

---
 src/Configuration/SFile/SettingSFile.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 37e8820..b46731d 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -241,9 +241,15 @@ bool SettingSFile::IsInteger() const {
     }
 }
 bool SettingSFile::IsInteger(unsigned int) const { return IsInteger(); }
-bool SettingSFile::IsInteger32() const {
+bool SettingSFile::IsInteger32() const { return IsInteger32(0); }
+bool SettingSFile::IsInteger32(unsigned int index) const {
     if (IsInteger()) {
-        int64_t i = GetInteger();
+        // Not representable as a signed 64-bit integer?
+        if (this->dtype == DataType::UINT64 &&
+            this->data.u64->at(index) > (uint64_t)std::numeric_limits<int64_t>::max())
+            return false;
+
+        int64_t i = GetInteger(index);
         if (i <= std::numeric_limits<int32_t>::max() &&
             i >= std::numeric_limits<int32_t>::min())
             return true;
@@ -252,7 +258,6 @@ bool SettingSFile::IsInteger32() const {
     } else
         return false;
 }
-bool SettingSFile::IsInteger32(unsigned int) const { return IsInteger32(); }
 bool SettingSFile::IsInteger64() const { return (this->dtype == DataType::INT64); }
 bool SettingSFile::IsInteger64(unsigned int) const { return IsInteger64(); }
 bool SettingSFile::IsUnsignedInteger32() const { return IsUnsignedInteger32(0); }
@@ -261,7 +266,7 @@ bool SettingSFile::IsUnsignedInteger32(unsigned int index) const {
     if (!IsUnsignedInteger64(index))
         return false;
 
-    int64_t i = GetInteger(index);
+    uint64_t i = GetUnsignedInteger64(index);
     if (i <= std::numeric_limits<uint32_t>::max())
         return true;
     else
-- 
2.43.0


From 1dd757b158623fbfba6c693f33e5fa78c7cc3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:40 +0000
Subject: [PATCH 32/59] fix: MagneticField2D: a path parallel to a wall tile
 crosses it only where they overlap, and the contour is closed

---
 src/MagneticField/MagneticField2D.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..e372f98 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -48,19 +48,27 @@ bool MagneticField2D::CrossesDomain(
         x01 = r - x00, y01 = z2 - y00,
         x10, y10, x11, y11, s, t, det;
 
-    unsigned int i;
-    for (i = 0; i < ndomain-1; i++) {
+    unsigned int i, j;
+    for (i = 0; i < ndomain; i++) {
+        /* The domain is a closed contour */
+        j = (i+1 < ndomain) ? i+1 : 0;
+
         x10 = rdomain[i];
-        x11 = rdomain[i+1] - x10;
+        x11 = rdomain[j] - x10;
         y10 = zdomain[i];
-        y11 = zdomain[i+1] - y10;
+        y11 = zdomain[j] - y10;
 
-        /* Check if matrix is zero */
-        if (x00-x10 == 0 && y00-y10 == 0) continue;
-        
         /* Compute determinant and check if zero */
         det = x11*y01 - x01*y11;
-        if (det == 0) return true;
+        if (det == 0) {
+            /* Parallel => intersection only if on the same line and overlapping */
+            if ((x00-x10)*y01 == (y00-y10)*x01 && (x00-x10)*y11 == (y00-y10)*x11 &&
+                max(x00, r)  >= min(x10, rdomain[j]) && min(x00, r)  <= max(x10, rdomain[j]) &&
+                max(y00, z2) >= min(y10, zdomain[j]) && min(y00, z2) <= max(y10, zdomain[j]))
+                return true;
+
+            continue;
+        }
 
         s = (1/det) * ((x00-x10)*y01 - (y00-y10)*x01);
         t =-(1/det) * ((y00-y10)*x11 - (x00-x10)*y11);
-- 
2.43.0


From b01ae5a2c56b439f9498de25b95bec995acce3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 33/59] fix: MagneticField2D: the extent of the domain takes
 every crossing into account, and stays within its arrays

---
 src/MagneticField/MagneticField2D.cpp | 79 ++++++++-------------------
 1 file changed, 23 insertions(+), 56 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index e372f98..ca77de9 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -216,41 +216,10 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
-	unsigned int i, ir;
-	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
-
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((z[i] >= za && z[i+1] <= za) ||
-			(z[i] <= za && z[i+1] >= za)) {
-			if (z[i+1] == z[i])
-				rpoints[ir++] = max(r[i], r[i+1]);
-			else
-				rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-		}
-	}
-
-	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
-		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
-		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-	}
-
-	if (ir == 0)
+	try {
+		FindMaxMin(n, r, z, this->GetMagneticAxisZ(), this->minradius, this->maxradius);
+	} catch (SOFTLibException&) {
 		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
-
-	// Find max & min radii
-	this->maxradius = rpoints[0];
-	this->minradius = rpoints[0];
-	for (i = 1; i < ir; i++) {
-		if (rpoints[i] > this->maxradius)
-			this->maxradius = rpoints[i];
-		else if (rpoints[i] < this->minradius)
-			this->minradius = rpoints[i];
 	}
 
 	return this->maxradius;
@@ -302,32 +271,30 @@ void MagneticField2D::FindMaxMin(
     unsigned int n, const slibreal_t *x, const slibreal_t *y,
     const slibreal_t a, slibreal_t &mn, slibreal_t &mx
 ) {
-	#define MAGFIELD2D_MAXXPOINTS 2
-	unsigned int i, ix;
-	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
-
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((y[i] >= a && y[i+1] <= a) ||
-			(y[i] <= a && y[i+1] >= a)) {
-			if (y[i+1] == y[i])
-				xpoints[ix++] = max(x[i], x[i+1]);
-			else
-				xpoints[ix++] = x[i] + (x[i+1]-x[i]) * (a-y[i])/(y[i+1]-y[i]);
+	unsigned int i, j;
+	bool found = false;
+	slibreal_t lo, hi;
+
+	for (i = 0; i < n; i++) {
+		// The domain is a closed contour
+		j = (i+1 < n) ? i+1 : 0;
+
+		if ((y[i] >= a && y[j] <= a) ||
+			(y[i] <= a && y[j] >= a)) {
+			if (y[j] == y[i]) {
+				lo = min(x[i], x[j]);
+				hi = max(x[i], x[j]);
+			} else
+				lo = hi = x[i] + (x[j]-x[i]) * (a-y[i])/(y[j]-y[i]);
+
+			if (!found || lo < mn) mn = lo;
+			if (!found || hi > mx) mx = hi;
+			found = true;
 		}
 	}
 
-	if (ix == 0)
+	if (!found)
 		throw SOFTLibException("Unable to find maximum point. Requested point is not within the domain.");
-
-	// Find max & min radii
-	mx = xpoints[0];
-	mn = xpoints[0];
-	for (i = 1; i < ix; i++) {
-		if (xpoints[i] > mx)
-			mx = xpoints[i];
-		else if (xpoints[i] < mn)
-			mn = xpoints[i];
-	}
 }
 
 /**
-- 
2.43.0


From dccf632afd4b50c395f6114ffbae356ce0fb3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:59 +0000
Subject: [PATCH 34/59] fix: MagneticField2D: the bounds of a new domain
 replace those of the old one

---
 src/MagneticField/MagneticField2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index ca77de9..03c9620 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -435,6 +435,7 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->rdomain = rd;
     this->zdomain = zd;
     this->ndomain = nd;
+    this->bounds_set = false;
 
 	this->FindMaxRadius();
 }
-- 
2.43.0


From 1bdbb6919129c45cde11b56a7d9ed4b8b32e198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 35/59] fix: MagneticField2D: the array form of
 IntersectsDomain3D passes the height of its first point

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 03c9620..6a0f990 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -334,7 +334,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From f6bff10253ef8c6981a60444f8c4e614fe44f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:19 +0000
Subject: [PATCH 36/59] fix: MagneticField2D: a line of sight intersects wall
 tiles only where both of them extend

---
 src/MagneticField/MagneticField2D.cpp | 38 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 6a0f990..99a1828 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -391,18 +391,15 @@ bool MagneticField2D::__IntersectsDomain3D(
         /* Equation becomes singular => line if sight does not intersect domain */
         if (zc == zp) return false;
 
-        t1 = t2 = (zn-zp)/(zc-zp);
+        t1 = (zn-zp)/(zc-zp);
         ic = 1/(xn-xnp);
         term1 = xp + (xc-xp)*t1, term2 = yp + (yc-yp)*t1;
         square = term1*term1 + term2*term2;
         sqr = sqrt(square);
 
-        s1 = ic * (xn + sqr);
-        s2 = ic * (xn + sqr);
+        s1 = ic * (xn - sqr);
 
-        if ((s1 >= 0 && s1 <= 1) || (s2 >= 0 && s2 <= 1))
-            return true;
-        else return false;
+        return (t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1);
     } else {
         izn = 1 / (znp-zn);
         kz = (zc-zp)*izn;
@@ -411,20 +408,29 @@ bool MagneticField2D::__IntersectsDomain3D(
         m = xn+mz*(xnp-xn);
 
         abc = a*a + b*b - c*c;
-        if (abc == 0) return true;
-        iabc = 1/abc;
+        term = c*m - a*xp - b*yp;
+        q = m*m - xp*xp - yp*yp;
 
-        term = (c*m - a*xp - b*yp) * iabc;
-        q = (m*m - xp*xp - yp*yp)*iabc;
-        square = term*term + q;
+        if (abc == 0) {
+            /* Line parallel to the surface of the cone => at most one intersection */
+            if (term == 0) return false;
+            t1 = t2 = -0.5*q / term;
+        } else {
+            iabc = 1/abc;
+            term *= iabc;
+            square = term*term + q*iabc;
 
-        if (square < 0) return false;
+            if (square < 0) return false;
 
-        sqr = sqrt(square);
-        t1 = term + sqr, t2 = term - sqr;
-        s1 = kz*t1,      s2 = kz*t2;
+            sqr = sqrt(square);
+            t1 = term + sqr, t2 = term - sqr;
+        }
+
+        /* The tile only extends between its end points */
+        s1 = kz*t1 + mz, s2 = kz*t2 + mz;
 
-        if ((t1 >= 0 && t1 <= 1) || (t2 >= 0 && t2 <= 1))
+        if ((t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1) ||
+            (t2 >= 0 && t2 <= 1 && s2 >= 0 && s2 <= 1))
             return true;
     }
 
-- 
2.43.0


From fbcf1698164b1efdcb23b785d5d3879e825337c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:24 +0000
Subject: [PATCH 37/59] fix: gradient of the analytical field on the magnetic
 axis

Without a poloidal direction the radial variation of the field strength
was multiplied by zero, so that the gradient came out as zero.
---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..2472fb1 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -151,7 +151,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 		DBr, DB0, ddr_rB0, iR = 1.0 / R;
 	
 	if (r != 0) sintheta = Z / r, costheta = (Rm-R) / r;
-	else sintheta = 0, costheta = 0;
+	else sintheta = 0, costheta = 1;	// any direction will do
 
 	sinphi = y * iR, cosphi = x * iR;
 	q = __GetSafetyFactor(r);
-- 
2.43.0


From 4334ede93f33c354339a6c17cb04351cecea17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 38/59] fix: numeric field made from an analytical one had no
 flux

The array of the flux was handed over without ever being filled.
---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 2472fb1..e720713 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From e90d972324aeb907d1244feb9349dd2d4589db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:50 +0000
Subject: [PATCH 39/59] fix: direction of the numeric field outside its grid

The distance from the symmetry axis was moved onto the grid before the
toroidal direction was formed with it, so that the field was scaled by
the ratio of the two distances.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..52080fe 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -300,6 +300,9 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t *xyz) {
 slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t z) {
 	slibreal_t r = hypot(x, y), br, bphi, bz, sin0, cos0;
 
+    if (r != 0) { sin0 = y/r, cos0 = x/r; }
+    else { sin0 = 0, cos0 = 1; }
+
 	/* Make sure requested point is within domain */
 		 if (r < rmin) r = rmin;
 	else if (r > rmax) r = rmax;
@@ -311,8 +314,6 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
     bphi = (slibreal_t)gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz   = (slibreal_t)gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) { sin0 = y/r, cos0 = x/r; }
-    else { sin0 = 0, cos0 = 1; }
     interpval[0] = br * cos0 - bphi * sin0;
     interpval[1] = br * sin0 + bphi * cos0;
     interpval[2] = bz;
@@ -335,7 +336,7 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
         sin0, cos0, sin20, cos20, sc0,
         dsin0_dx, dcos0_dx, dsin0_dy, dcos0_dy,
         dBr_dr, dBr_dz, dB0_dr, dB0_dz, dBz_dr, dBz_dz,
-        br, b0, bz;
+        br, b0, bz, r0 = r;
 
          if (r < rmin) r = rmin;
     else if (r > rmax) r = rmax;
@@ -359,8 +360,8 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
     b0 = gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz = gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) {
-        sin0 = y/r, cos0 = x/r;
+    if (r0 != 0) {
+        sin0 = y/r0, cos0 = x/r0;
         sin20 = sin0*sin0, cos20 = cos0*cos0;
         sc0 = sin0*cos0;
 
-- 
2.43.0


From a20a15a9fbc0621aaddc5504cff6f939b3b57a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:51 +0000
Subject: [PATCH 40/59] fix: magnetic flux outside the grid aborted the program

The field is evaluated at the nearest point of the grid, but the flux was
asked for outside of it, where the interpolation library aborts.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 52080fe..2a2b8a1 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -444,6 +444,13 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -469,6 +476,12 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From 06c0f5c90bb111063829e715a11b3b4945b82d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:53 +0000
Subject: [PATCH 41/59] fix: cloned numeric field without a wall had no domain

The clone got empty arrays for a wall that does not exist, and took them
as its domain in place of the separatrix.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 2a2b8a1..1303abd 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -159,8 +159,8 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
         nR, nZ, this->nr, this->nz,
         nBr, nBphi, nBz, nPsi,
         this->magnetic_axis[0], this->magnetic_axis[1],
-        nrsep, nzsep, this->nsep,
-        nrwall, nzwall, this->nwall
+        (this->nsep>0 ? nrsep : nullptr), (this->nsep>0 ? nzsep : nullptr), this->nsep,
+        (this->nwall>0 ? nrwall : nullptr), (this->nwall>0 ? nzwall : nullptr), this->nwall
     );
 }
 
-- 
2.43.0


From 9bd844aaa74d82f71b1785724777bb2971f287be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:55 +0000
Subject: [PATCH 42/59] fix: saving a numeric field without flux read from a
 null pointer

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 1303abd..aa4c780 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -761,7 +761,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (this->Psi != nullptr)
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From c6f73cfa5b7b9e99a0ec621b0ce7e5e2d10b5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:33 +0000
Subject: [PATCH 43/59] fix: magnetic field files with arrays of the wrong
 shape were read out of bounds

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index aa4c780..9c2ed46 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -496,6 +496,13 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
  * filename: Name of file to load magnetic field from.
  * (optional) ftype: SFile-interface to use when loading file.
  */
+static void VerifyShape(
+    const string& filename, const char *var, const sfilesize_t *fs,
+    const sfilesize_t rows, const sfilesize_t cols
+) {
+    if ((fs[0] != rows || fs[1] != cols) && (fs[0] != cols || fs[1] != rows))
+        throw SOFTLibException("%s: Invalid dimensions of '%s': %llu x %llu.", filename.c_str(), var, (unsigned long long)fs[0], (unsigned long long)fs[1]);
+}
 void MagneticFieldNumeric2D::Load(const string& filename) {
 	Load(filename, SFile::TypeOfFile(filename));
 }
@@ -522,12 +529,15 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nz = fs[0];
 
 	_Br = sf->GetDoubles("Br", fs);
+	VerifyShape(filename, "Br", fs, this->nz, this->nr);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Br = Transpose(_Br, fs[0], fs[1]);
 	_Bphi = sf->GetDoubles("Bphi", fs);
+	VerifyShape(filename, "Bphi", fs, this->nz, this->nr);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
 	_Bz = sf->GetDoubles("Bz", fs);
+	VerifyShape(filename, "Bz", fs, this->nz, this->nr);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
@@ -537,6 +547,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
     } catch (SFileException& ex) {}
+    if (_Psi != nullptr)
+        VerifyShape(filename, "Psi", fs, this->nz, this->nr);
 
     /* Load verification vectors (if present) */
     try {
@@ -580,6 +592,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	try {
 		_temp = sf->GetDoubles("wall", fs);
+        if (fs[0] != 2)
+            VerifyShape(filename, "wall", fs, fs[0], 2);
         if (fs[0] == 2) {
             _rwall = _temp[0];
             _zwall = _temp[1];
@@ -606,6 +620,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	try {
 		_temp = sf->GetDoubles("separatrix", fs);
+        if (fs[0] != 2)
+            VerifyShape(filename, "separatrix", fs, fs[0], 2);
         if (fs[0] == 2) {
             _rsep = _temp[0];
             _zsep = _temp[1];
-- 
2.43.0


From e99a46317568c6a655f241d4eacefebc7df20b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:08 +0000
Subject: [PATCH 44/59] fix: destructor of a numeric field whose file could not
 be read used uninitialised sizes

---
 include/softlib/MagneticField/MagneticFieldNumeric2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index b65a063..468d734 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -18,7 +18,7 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		slibreal_t *R=nullptr, *Z=nullptr;
 		slibreal_t *rsep=nullptr, *zsep=nullptr;
 		slibreal_t *rwall=nullptr, *zwall=nullptr;
-		unsigned int nr, nz, nwall, nsep;
+		unsigned int nr=0, nz=0, nwall=0, nsep=0;
 
         /* Interpolated value storage */
         slibreal_t *interpval;
-- 
2.43.0


From f5663f3e1efdb7959cc23ef53e33c4fd77f1952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:07 +0000
Subject: [PATCH 45/59] fix: numeric distribution lost its first radius, and
 mixed up decreasing radial grids

---
 .../NumericDistributionFunction.cpp                | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..fbd3088 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -135,17 +135,18 @@ void NumericDistributionFunction::Initialize(
     bool ascnd = true;
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
     for (unsigned int i = 1; i < nr; i++) {
         if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
-
-        // Copy radius to radial grid
-        this->r.push_back(r[i]);
     }
 
+    // Copy radii to radial grid (which is stored in increasing order)
+    for (unsigned int i = 0; i < nr; i++)
+        this->r.push_back(r[ascnd ? i : nr-1-i]);
+
     // Set radial grid limits
     this->rmin = r[0];
     this->rmax = r[nr-1];
@@ -157,12 +158,13 @@ void NumericDistributionFunction::Initialize(
 
     // Initialize momentum space distributions
     for (unsigned int i = 0; i < nr; i++) {
+        slibreal_t *fr = f + (ascnd ? i : nr-1-i)*(np*nxi);
         this->msdf.push_back(new NumericMomentumSpaceDistributionFunction());
 
         if (interptype == INTERPOLATION_LINEAR)
-            this->msdf[i]->Initialize(np, nxi, p, xi, f+i*(np*nxi), NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
+            this->msdf[i]->Initialize(np, nxi, p, xi, fr, NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
         else
-            this->msdf[i]->Initialize(np, nxi, p, xi, f+i*(np*nxi), NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
+            this->msdf[i]->Initialize(np, nxi, p, xi, fr, NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
     }
 }
 
-- 
2.43.0


From f1f7411ec2d880623e9845ec5036c11d2ffd2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:08 +0000
Subject: [PATCH 46/59] fix: distribution inserted below the innermost radius
 was assigned to another radius

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index fbd3088..654032e 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -86,7 +86,7 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
     int il, im, iu, nnr = (int)this->r.size();
 
     if (nnr == 0) return -1;
-    else if (nnr == 1) return 0;
+    else if (nnr == 1) return (r < this->r[0] ? -1 : 0);
     ascnd = (this->r[1] > this->r[0]);
     
     il = 0;
@@ -234,10 +234,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
-- 
2.43.0


From eb3778e77e940e67512cc3832cbe1666358f0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:10 +0000
Subject: [PATCH 47/59] fix: numeric distribution was extrapolated wrongly in
 radius

---
 .../NumericDistributionFunction.cpp            | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 654032e..c9ace74 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -41,22 +41,16 @@ slibreal_t NumericDistributionFunction::Eval(
     slibreal_t r0, r1;
 
     if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
+        return this->msdf[0]->Eval(p, xi);
     } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
+        r0 = this->r[0];
+        r1 = this->r[1];
 
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
+        f0 = this->msdf[0]->Eval(p, xi);
+        f1 = this->msdf[1]->Eval(p, xi);
     } else if ((size_t)ir >= nr-1) {
         r0 = this->r[nr-1];
-        r1 = r0 + (2*r0 - this->r[nr-2]);
+        r1 = 2*r0 - this->r[nr-2];
 
         f0 = this->msdf[nr-1]->Eval(p, xi);
         f1 = 2*f0 - this->msdf[nr-2]->Eval(p, xi);
-- 
2.43.0


From 8e9fae5e6da6f6f1245dccbb74b38df970b507ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:11 +0000
Subject: [PATCH 48/59] fix: clones of numeric distributions forgot that they
 are logarithmic

---
 src/DistributionFunction/NumericDistributionFunction.cpp       | 3 +++
 .../NumericMomentumSpaceDistributionFunction.cpp               | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index c9ace74..d4a0f18 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -307,6 +307,9 @@ NumericDistributionFunction *NumericDistributionFunction::MinClone() {
         );
     }
 
+    df->SetExtrapolationPermission(this->allowExtrapolation);
+    df->SetLogarithmic(this->logarithmic);
+
     return df;
 }
 
diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..b761787 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -138,6 +138,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From b37d0813f35b0aed2cb78b64e6e323f6f614accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:12 +0000
Subject: [PATCH 49/59] fix: logarithmic tables in a new array used the
 original values

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index d4a0f18..b58d50b 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -191,11 +191,10 @@ void NumericDistributionFunction::InitializeLog(
 ) {
 	slibreal_t *tf;
 
-    if (alloc) {
+    if (alloc)
         tf = new slibreal_t[nr*np*nxi];
-        for (unsigned int i = 1; i < nr; i++)
-            tf[i] = tf[i-1] + np*nxi;
-    } else tf = f;
+    else
+        tf = f;
 
     for (unsigned int i = 0; i < nr*np*nxi; i++) {
 		if (f[i] <= 0)
@@ -286,7 +285,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 028bd338977c552d6d56992d060df32c25a3bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:13 +0000
Subject: [PATCH 50/59] fix: momentum grids which do not increase aborted the
 program

---
 .../NumericMomentumSpaceDistributionFunction.cpp       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index b761787..af29e01 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -76,11 +76,13 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->ximin = xi[0];
     this->ximax = xi[nxi-1];
 
-    if (this->pmin > this->pmax)
-        throw SOFTLibException("The p-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < np; i++)
+        if (!(p[i-1] < p[i]))
+            throw SOFTLibException("The p-grid must be strictly increasing.");
 
-    if (this->ximin > this->ximax)
-        throw SOFTLibException("The xi-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < nxi; i++)
+        if (!(xi[i-1] < xi[i]))
+            throw SOFTLibException("The xi-grid must be strictly increasing.");
 
     // Initialize interpolation
     pa = gsl_interp_accel_alloc();
-- 
2.43.0


From acd5b7c82af05b78947f530cbb570b916b7befff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:54 +0000
Subject: [PATCH 51/59] fix: Legendre modes were written outside their arrays
 for few modes or momenta

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..403b607 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg > 1)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From f6471b780b1005f687ed25e2f8c06c140b3a1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:56 +0000
Subject: [PATCH 52/59] fix: CODE distribution used the Legendre polynomials of
 another pitch after conversion

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 403b607..36fe38a 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -380,6 +380,7 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
     ff = new slibreal_t[nnxi*np];
     for (i = 0; i < nnxi; i++) {
         ComputeLegendrePolynomials(this->legendre, txi[i], this->nleg);
+        this->xileg = txi[i];
 
         for (j = 0; j < np; j++) {
             elindex = i*np + j;
-- 
2.43.0


From 988eb2ac2fac6adaeaed6d1b629db9a745d7b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:57 +0000
Subject: [PATCH 53/59] fix: CODE distributions with an unordered momentum grid
 aborted the program

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 36fe38a..ebe31dc 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -301,6 +301,10 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     if (this->f == nullptr || this->p == nullptr)
         throw SOFTLibException("CODE distribution function: f and p have not been initialized yet.");
 
+    for (i = 1; i < this->np; i++)
+        if (!(this->p[i-1] < this->p[i]))
+            throw SOFTLibException("CODE distribution function: The momentum grid must be strictly increasing.");
+
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-- 
2.43.0


From 4b8ecd448abb7e7d76d20cbb937e459045b10702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:59 +0000
Subject: [PATCH 54/59] fix: GO+CODE distributions were extrapolated wrongly in
 radius

---
 .../GOCODEDistributionFunction.cpp            | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..ee12b47 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,20 +43,20 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
-        r0 = 0;
-        r1 = this->rho[0];
-        slibreal_t r2 = this->rho[1], f2;
+    if (this->nr == 1) {
+        return this->code[0]->Eval(p, xi);
+    } else if (ir <= 0) {
+        r0 = this->rho[0];
+        r1 = this->rho[1];
 
-        f1 = this->code[0]->Eval(p, xi);
-        f2 = this->code[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
+        f0 = this->code[0]->Eval(p, xi);
+        f1 = this->code[1]->Eval(p, xi);
+    } else if ((unsigned int)ir >= this->nr-1) {
         r0 = this->rho[this->nr-1];
-        r1 = r0 + (2*r0 - this->rho[nr-2]);
+        r1 = 2*r0 - this->rho[nr-2];
 
         f0 = this->code[this->nr-1]->Eval(p, xi);
         f1 = 2*f0 - this->code[this->nr-2]->Eval(p, xi);
-- 
2.43.0


From 4338f8315951c3cdac08bd269c9f738430e794af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:01 +0000
Subject: [PATCH 55/59] fix: loading SOFT and DREAM distributions without a
 magnetic field read a null pointer

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 3 ++-
 src/DistributionFunction/SOFTDistributionFunction.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f8f7087..9710969 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -182,7 +182,8 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (sfilesize_t i = 0; i < nr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is not strictly increasing.");
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 3622d84..c7b4af8 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -187,7 +187,8 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (unsigned int i = 0; i < nnr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("The radial grid in the SOFT distribution function is not strictly increasing.");
-- 
2.43.0


From 7aec6679da760f4cb747c8dd42225f7b893ad30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:02 +0000
Subject: [PATCH 56/59] fix: short names of DREAM distributions were not
 refused properly

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 9710969..9bff7cb 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -107,9 +107,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         throw SOFTLibException("DREAMDistributionFunction: No distribution function found in file '%s'. Try to explicitly give the name of the distribution function.", filename.c_str());
 
     size_t l = dname.length();
-    if (dname.substr(l-4) == "f_re")
+    if (l >= 4 && dname.substr(l-4) == "f_re")
         momgridname = "/grid/runaway";
-    else if (dname.substr(l-5) == "f_hot")
+    else if (l >= 5 && dname.substr(l-5) == "f_hot")
         momgridname = "/grid/hottail";
     else
         throw SOFTLibException("DREAMDistributionFunction: Unrecognized type of distribution function specified: '%s'. Unable to determine which momentum grid to use.", dname.c_str());
-- 
2.43.0


From b47a4a480a4b6e9f4abbce127166a160fb1ef623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:04 +0000
Subject: [PATCH 57/59] fix: DREAM time steps outside the file were read out of
 bounds

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 9bff7cb..a925997 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -120,7 +120,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     /////////////////////////////
     // LOAD DATA
     /////////////////////////////
-    sfilesize_t fsize[4], ndims, nr, np, nxi, nt;
+    sfilesize_t fsize[4] = {0,0,0,0}, ndims, nr, np, nxi, nt;
     // f
     double *tf = sf->GetMultiArray_linear(dname, 4, ndims, fsize);
     double *tt = sf->GetDoubles1D("/grid/t", &nt);
@@ -128,7 +128,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     double *tp = sf->GetDoubles1D(momgridname + "/p1", &np);
     double *tx = sf->GetDoubles1D(momgridname + "/p2", &nxi);
     
-    if (ndims != 4 || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
+    if (ndims != 4 || fsize[0] != nt || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llu, but f has size %llux%llux%llu.",
             ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
@@ -141,7 +141,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         TIMEINDEX = timestep * nr*np*nxi;
 
     // Bounds check
-    if (TIMEINDEX > nt*nr*np*nxi)
+    if (TIMEINDEX >= nt*nr*np*nxi)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid time step specified. The distribution contains %llu time steps.",
             nt
-- 
2.43.0


From 6e80a10739ba28b450ad1c83db0288d03fdffcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:06 +0000
Subject: [PATCH 58/59] fix: DREAM distribution freed a pointer into the middle
 of an array

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index a925997..dd99900 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -153,7 +153,11 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Convert to slibreal_t (if necessary)
     if (std::is_same<slibreal_t, double>::value) {
-        dat->f  = tf + TIMEINDEX;
+        dat->f  = new slibreal_t[nr*nxi*np];
+        for (sfilesize_t i = 0; i < nr*nxi*np; i++)
+            dat->f[i] = (slibreal_t)(tf+TIMEINDEX)[i];
+        delete [] tf;
+
         dat->r  = tr;
         dat->p  = tp;
         dat->xi = tx;
-- 
2.43.0


From 2400dd67db50fc46fec5a063b341d0203d02abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:52 +0000
Subject: [PATCH 59/59] fix: SDT: the number of elements of a huge matrix
 wrapped around, and its elements were written outside their array

---
 src/SFile/SFile_SDT.load.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 03727a7..9d95b3d 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -3,6 +3,7 @@
  */
 
 #include <fstream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <softlib/SFileException.h>
@@ -59,6 +60,10 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
+    // The number of elements must be representable
+    if (ncols > 0 && nrows > numeric_limits<sfilesize_t>::max() / ncols)
+        throw SFileException("Invalid dimensions of matrix '%s'.", name.c_str());
+
     slibreal_t **vals = new slibreal_t*[nrows > 0 ? nrows : 1];
     vals[0] = new slibreal_t[nrows*ncols];
 
-- 
2.43.0

