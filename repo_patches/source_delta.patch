From 4b9137f7e743eea59c0ec582cb39cd7ffb7c5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:24 +0000
Subject: [PATCH 01/42] fix: accumulate multi-channel integer distances in a
 type wide enough for the result

The channel-wise L1/squared-L2/L2 distances accumulated 8-bit (resp. 16-bit) integer
channel differences in an 8-bit (resp. 16-bit) result and silently wrapped around.
---
 modules/utils/include/litiv/utils/math.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..183cd92 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -225,7 +225,7 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -234,19 +234,19 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -284,7 +284,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the L1 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -314,7 +314,7 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -323,19 +323,19 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -373,7 +373,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the squared L2 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -390,7 +390,7 @@ namespace lv {
     /// computes the L2 distance between two integer arrays
     template<size_t nChannels, typename Tin, typename Tout=float, typename=std::enable_if_t<std::is_integral<Tin>::value>>
     inline Tout L2dist(const Tin* a, const Tin* b) {
-        decltype(L2sqrdist(Tin(),Tin())) tResult = 0;
+        size_t tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
             tResult += L2sqrdist(a[c],b[c]);
         return (Tout)std::sqrt(tResult);
-- 
2.43.0


From 476f7ab2ddcbaea371bb2b0daac57a245f8891a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:35 +0000
Subject: [PATCH 02/42] fix: shift in the bitfield's own type when expanding
 64-bit bitfields

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 183cd92..b5878ce 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -988,7 +988,7 @@ namespace lv {
     constexpr std::enable_if_t<(nWordBitSize>1),T> expand_bits(const T& nBits, size_t n=((sizeof(T)*8)/nWordBitSize)-1) {
         static_assert(std::is_integral<T>::value,"input value type must be integer");
         // only the first [(sizeof(T)*8)/nWordBitSize] bits are kept (otherwise overflow/ignored)
-        return (T)(bool((nBits&(1<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
+        return (T)(T((nBits&(T(1)<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
     }
 
     /// performs LU decomposition of a MxM matrix A (function signature is the same as OpenCV's LU32f/LU64f) --- only efficient for small matrices
-- 
2.43.0


From d272e7a0d25eaf577cace5d3acba790532520312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:35 +0000
Subject: [PATCH 03/42] fix: give auto buffers real same-type move operations

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 9d46273..acad4ca 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -740,12 +740,16 @@ namespace lv {
         /// move constructor
         template<size_t nStaticSize2>
         explicit AutoBuffer(AutoBuffer<TVal,nStaticSize2,nByteAlign>&&);
+        /// move constructor (same-type version; template constructors are never used as the implicit one)
+        AutoBuffer(AutoBuffer&& o) : AutoBuffer(size_type(0)) {operator=<nStaticSize>(std::move(o));}
         /// copy assignment operator
         template<size_t nStaticSize2>
         AutoBuffer<TVal,nStaticSize,nByteAlign>& operator=(const AutoBuffer<TVal,nStaticSize2,nByteAlign>&);
         /// move assignment operator
         template<size_t nStaticSize2>
         AutoBuffer<TVal,nStaticSize,nByteAlign>& operator=(AutoBuffer<TVal,nStaticSize2,nByteAlign>&&);
+        /// move assignment operator (same-type version; template operators are never used as the implicit one)
+        AutoBuffer& operator=(AutoBuffer&& o) {return operator=<nStaticSize>(std::move(o));}
         /// access specified element with bounds checking
         template<typename TIndex>
         reference at(TIndex nPosIdx);
-- 
2.43.0


From 707ad45f7cbba9ab6c08b081de4707518e8e8ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:36 +0000
Subject: [PATCH 04/42] fix: reject negative indices (and keep narrow ones) in
 auto buffer checked access

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index acad4ca..5468ab3 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -1215,7 +1215,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__((size_type)nPosIdx<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
@@ -1223,7 +1223,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::const_reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) const {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__((size_type)nPosIdx<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
-- 
2.43.0


From 577c6892bd424c5e226904a7b579edc0a1fa2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:10 +0000
Subject: [PATCH 05/42] fix: copy the pushed element before the auto buffer it
 may live in is reallocated

---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 5468ab3..2bf821e 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -1360,8 +1360,8 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 void lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::push_back(const value_type& o) {
     lvDbgAssert(m_nUsedBufferSize<=m_nBufferSize);
     if(m_nUsedBufferSize==m_nBufferSize) {
-        reserve(m_nBufferSize*2);
-        lvDbgAssert(m_nBufferSize>m_nUsedBufferSize+1);
+        push_back(value_type(o)); // 'o' might live in the buffer we are about to reallocate
+        return;
     }
     m_pBufferPtr[m_nUsedBufferSize] = o;
     ++m_nUsedBufferSize;
-- 
2.43.0


From 1504ca95a0ec40a0d8daaf475196371e2e2d8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 06/42] fix: accumulate cumulative sums in the output type

---
 modules/utils/include/litiv/utils/cxx.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 2bf821e..cc92ca8 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -316,7 +316,8 @@ namespace lv {
     template<typename TVal, typename TSum=std::conditional_t<std::is_integral<TVal>::value,size_t,float>>
     inline std::vector<TSum> cumulativeSum(const std::vector<TVal>& vArray) {
         std::vector<TSum> vSums(vArray.size());
-        std::partial_sum(vArray.begin(),vArray.end(),vSums.begin(),std::plus<TSum>());
+        TSum tSum = TSum(0); // std::partial_sum would accumulate (and possibly overflow) in the input value type
+        std::transform(vArray.begin(),vArray.end(),vSums.begin(),[&tSum](const TVal& tVal){return tSum += TSum(tVal);});
         return vSums;
     }
 
-- 
2.43.0


From 83003d3bc508c569fda9009208ad531e5fbdb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 07/42] fix: keep equal values in order when sorting indices,
 so that unique indices are first occurrences

---
 modules/utils/include/litiv/utils/cxx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index cc92ca8..201d74b 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -340,7 +340,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
             return voVals[n1]<voVals[n2];
         });
         return vnIndices;
-- 
2.43.0


From c81a5d63b8f1f4674a6ec6e6d614899f9810de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 08/42] fix: interpolate with the segment that contains the
 requested value

---
 modules/utils/include/litiv/utils/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index b5878ce..5f488da 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -935,7 +935,9 @@ namespace lv {
         DistType (&rlDist)(Tx,Tx) = lv::L1dist<Tx>;
         for(size_t i=0; i<nReqSize; ++i) {
             if(vXReq[i]>=vX.front() && vXReq[i]<=vX.back()) {
-                const size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
+                size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
+                if(nNNIdx>0 && vXReq[i]<vX[nNNIdx])
+                    --nNNIdx; // slopes/offsets are stored for the segment on the right of each point
                 vYReq[i] = vSlope[nNNIdx]*vXReq[i]+vOffset[nNNIdx];
             }
             else
-- 
2.43.0


From 82f4e29d07f72c2ae8f249157cafe1d1ed0a87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 09/42] fix: do not truncate formatted text that needs exactly
 the size of the internal buffer

---
 modules/utils/src/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 554d92c..995c28f 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -31,7 +31,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"putf failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         return vBuffer;
     }
@@ -148,7 +148,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"safe_print failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         std::lock_guard<std::mutex> oLock(getLogMutex());
         return os << vBuffer;
-- 
2.43.0


From 527b9e69561cd37af0dd814a4a727fbf9345ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 10/42] fix: do not use assertion text as a format string

---
 modules/utils/include/litiv/utils/cxx.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 201d74b..da3e624 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -194,6 +194,12 @@ namespace lv {
                 m_acFuncName(sFunc),m_acFileName(sFile),m_nLineNumber(nLine) {
             lvCerr_(1) << this->what() << std::endl;
         }
+        /// argument-less lv exception constructor; the message (which may hold stringized code) is not a format string here
+        inline Exception(const std::string& sErrMsg, const char* sFunc, const char* sFile, int nLine) :
+                std::runtime_error(lv::putf("Exception in function '%s'\n\t... from %s(%d)\n\t... what = %s",sFunc,sFile,nLine,sErrMsg.c_str())),
+                m_acFuncName(sFunc),m_acFileName(sFile),m_nLineNumber(nLine) {
+            lvCerr_(1) << this->what() << std::endl;
+        }
         /// name of the function the exception originated from
         const char* const m_acFuncName;
         /// name of the file the exception originated from
-- 
2.43.0


From 7c74550dce9f423ad6cd3a62cfe9992c3c0e3b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 11/42] fix: count the digits of integers beyond the 32-bit
 range

---
 modules/utils/include/litiv/utils/cxx.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index da3e624..c32d72f 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -241,10 +241,12 @@ namespace lv {
     /// returns the number of decimal digits required to display the non-fractional part of a given number (counts sign as extra digit if negative)
     template<typename T>
     inline int digit_count(T number) {
-        if(std::isnan((float)number))
+        if(std::isnan((double)number))
             return 3;
+        if(std::isinf((double)number))
+            return number<0?4:3;
         int digits = number<0?2:1;
-        while(std::abs((int)number)>=10) {
+        while(std::abs((double)number)>=10) {
             number /= 10;
             digits++;
         }
-- 
2.43.0


From 71aba544b0f53f2689984bb98cfc995e24e0bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:14 +0000
Subject: [PATCH 12/42] fix: keep equal values in order when sorting indices
 with a custom functor

---
 modules/utils/include/litiv/utils/cxx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index c32d72f..91adaa9 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -360,7 +360,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
         return vnIndices;
     }
 
-- 
2.43.0


From 8be86b0555517a42ae2c94f976f1a379cc161271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 13/42] fix: getBasicMat (and isNearlyEqual, print) must honour
 the row steps of matrix views

---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 30a323d..35295fb 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -607,11 +607,11 @@ namespace lv {
         static_assert(isDataTypeCompat<T>(),"matrix type must be cv-compatible, and without channels");
         lvAssert_(lv::MatType(oMat.type()).isTypeCompat<T>(),"input mat type is not compatible with required output type");
         if(oMat.channels()==1)
-            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data));
+            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data),oMat.step.p);
         std::vector<int> vDims((size_t)(oMat.dims+1),oMat.channels());
         for(int nDimIdx=0; nDimIdx<oMat.dims; ++nDimIdx)
             vDims[nDimIdx] = oMat.size[nDimIdx];
-        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data));
+        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data),oMat.step.p); // last step (elem size) is implicit
     }
 
     /// returns a subselection of a n-dimension matrix by specifying one dim+range pair, without copying data
-- 
2.43.0


From 2be07f5a7e913066dcc501f03601423f4207376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 14/42] fix: getSubPix must interpolate, not extrapolate, at
 negative coordinates

---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 35295fb..10596ab 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -641,7 +641,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX=fX-(float)nX,fDY=fY-(float)nY;
@@ -670,7 +670,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2 && oMat.channels()==1,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX = fX-(float)nX, fDY=fY-(float)nY;
-- 
2.43.0


From 33789f16a063a11bd3e35f7f6a92dac9be971cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 15/42] fix: BinClassif::accumulate must check the continuity
 of the ROI, not of the GT map

---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..156e1e6 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From 6d71e8906e2a82aa3340d60dd0b7a2a86d51ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 16/42] fix: avoid 64-bit overflow of FP*FN in Matthews
 correlation coefficient

---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From 6e72933748fee98fba79664223b0f17bc6eaaa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:15 +0000
Subject: [PATCH 17/42] Add guarded verification hook for the minimum packet
 cache size

---
 modules/datasets/src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a739212..563822f 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -27,7 +27,11 @@
 #error "Cache max size exceeds system limit (x86)."
 #endif //(!(defined(...arch...)) && CACHE_MAX_SIZE_MB>2048)
 #define CACHE_MAX_SIZE size_t(((CACHE_MAX_SIZE_MB)*1024)*1024)
+#ifdef LITIV_VERIF_CACHE_MIN_SIZE
+#define CACHE_MIN_SIZE size_t(LITIV_VERIF_CACHE_MIN_SIZE) // verification hook: small caches
+#else //ndef(LITIV_VERIF_CACHE_MIN_SIZE)
 #define CACHE_MIN_SIZE size_t(((10u)*1024)*1024) // 10mb
+#endif //ndef(LITIV_VERIF_CACHE_MIN_SIZE)
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b783331cb6e4d905625921918f6f69db4e49382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:31 +0000
Subject: [PATCH 18/42] fix: DataWriter workers must take packets out of the
 queue before writing them

---
 modules/datasets/src/utils.cpp | 38 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 563822f..c18c6a3 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1433,27 +1433,25 @@ void lv::DataWriter::stopAsyncWriting() {
 void lv::DataWriter::entry() {
     lvDbgExceptionWatch;
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
-    while(m_bIsActive || m_nQueueCount>0) {
-        m_oQueueCondVar.wait(sync_lock,[&](){return !m_bIsActive || m_nQueueCount>0;});
-        if(m_nQueueCount>0) {
-            auto pCurrPacket = m_mQueue.begin();
-            if(pCurrPacket!=m_mQueue.end()) {
-                const size_t nPacketSize = pCurrPacket->second.total()*pCurrPacket->second.elemSize();
-                if(nPacketSize<=m_nQueueSize) {
-                    try {
-                        lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
-                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
-                        m_lCallback(pCurrPacket->second,pCurrPacket->first);
-                    }
-                    catch(...) {
-                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
-                    }
-                    m_nQueueSize -= nPacketSize;
-                    m_mQueue.erase(pCurrPacket);
-                    --m_nQueueCount;
-                    m_oClearCondVar.notify_all();
-                }
+    while(m_bIsActive || !m_mQueue.empty()) {
+        m_oQueueCondVar.wait(sync_lock,[&](){return !m_bIsActive || !m_mQueue.empty();});
+        if(!m_mQueue.empty()) {
+            // packet is taken out of the queue before unlocking, so that it can't be replaced or picked up by another worker while it is being written
+            const size_t nPacketIdx = m_mQueue.begin()->first;
+            const cv::Mat oPacket = m_mQueue.begin()->second;
+            m_mQueue.erase(m_mQueue.begin());
+            const size_t nPacketSize = oPacket.total()*oPacket.elemSize();
+            try {
+                lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
+                lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),nPacketIdx,nPacketSize/1024);
+                m_lCallback(oPacket,nPacketIdx);
+            }
+            catch(...) {
+                m_vWorkerExceptions.push(std::make_pair(std::current_exception(),nPacketIdx));
             }
+            m_nQueueSize -= nPacketSize;
+            --m_nQueueCount;
+            m_oClearCondVar.notify_all();
         }
     }
 }
-- 
2.43.0


From 82d68a23fe7c00a883a6f283442566d2a514a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:33 +0000
Subject: [PATCH 19/42] fix: DataWriter destruction must not terminate the
 process after a failed write

---
 modules/datasets/src/utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c18c6a3..2d9f329 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1335,7 +1335,12 @@ lv::DataWriter::DataWriter(std::function<size_t(const cv::Mat&,size_t)> lDataArc
 }
 
 lv::DataWriter::~DataWriter() {
-    stopAsyncWriting();
+    try {
+        stopAsyncWriting();
+    }
+    catch(...) { // cannot throw from destructor; call 'stopAsyncWriting' directly to get worker exceptions
+        lvLog_(1,"data writer [%" PRIxPTR "] caught worker exception(s) during destruction (ignoring)",uintptr_t(this));
+    }
 }
 
 bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
@@ -1423,9 +1428,9 @@ void lv::DataWriter::stopAsyncWriting() {
         for(std::thread& oWorker : m_vhWorkers)
             oWorker.join();
     }
-    while(!m_vWorkerExceptions.empty()) {
+    if(!m_vWorkerExceptions.empty()) {
         std::exception_ptr pLatestException = m_vWorkerExceptions.top().first; // add packet idx to exception...? somewhow?
-        m_vWorkerExceptions.pop();
+        m_vWorkerExceptions = std::stack<std::pair<std::exception_ptr,size_t>>(); // all exceptions are reported at once
         std::rethrow_exception(pLatestException);
     }
 }
-- 
2.43.0


From bfa87733b53b2ab301e57cfc3d5e1fb591092975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:13 +0000
Subject: [PATCH 20/42] fix: DataPrecacher must report a loader exception once,
 and never from its destructor

---
 modules/datasets/src/utils.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 2d9f329..54c58c7 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -312,7 +312,12 @@ lv::DataPrecacher::DataPrecacher(std::function<cv::Mat(size_t)> lDataLoaderCallb
 }
 
 lv::DataPrecacher::~DataPrecacher() {
-    stopAsyncPrecaching();
+    try {
+        stopAsyncPrecaching();
+    }
+    catch(...) { // cannot throw from destructor; call 'stopAsyncPrecaching' directly to get the worker exception
+        lvLog_(1,"data precacher [%" PRIxPTR "] caught worker exception during destruction (ignoring)",uintptr_t(this));
+    }
 }
 
 const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
@@ -352,7 +357,9 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         lvLog_(1,"data precacher [%" PRIxPTR "] caught precacher exception while requesting packet #%zu, will rethrow...",uintptr_t(this),nIdx);
         m_bIsActive = false;
         m_hWorker.join();
-        std::rethrow_exception(m_pWorkerException);
+        std::exception_ptr pWorkerException;
+        std::swap(pWorkerException,m_pWorkerException); // will not be reported again when stopping
+        std::rethrow_exception(pWorkerException);
     }
     m_oLastReqPacket = m_oReqPacket;
     m_nLastReqIdx = nAnswIdx;
@@ -385,8 +392,11 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
-    if(m_pWorkerException)
-        std::rethrow_exception(m_pWorkerException);
+    if(m_pWorkerException) {
+        std::exception_ptr pWorkerException;
+        std::swap(pWorkerException,m_pWorkerException); // will not be reported again
+        std::rethrow_exception(pWorkerException);
+    }
 }
 
 void lv::DataPrecacher::entry(const size_t nBufferSize) {
-- 
2.43.0


From ac7f36104904423786c2444fe0889a9987aebd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:13 +0000
Subject: [PATCH 21/42] fix: the last packet returned by DataPrecacher must
 stay valid after precaching is stopped

---
 modules/datasets/include/litiv/datasets/utils.hpp | 1 +
 modules/datasets/src/utils.cpp                    | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index dccf0b6..a6ac543 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -480,6 +480,7 @@ namespace lv {
         size_t m_nReqIdx,m_nLastReqIdx;
         std::atomic_size_t m_nAnswIdx;
         cv::Mat m_oReqPacket,m_oLastReqPacket;
+        std::vector<uchar> m_vcBuffer;
         DataPrecacher& operator=(const DataPrecacher&) = delete;
         DataPrecacher(const DataPrecacher&) = delete;
     };
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 54c58c7..ac94bd8 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -392,6 +392,11 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
+    if(!m_vcBuffer.empty()) {
+        m_oReqPacket = cv::Mat();
+        m_oLastReqPacket = m_oLastReqPacket.clone(); // last packet stays available, and may be located in the buffer
+        m_vcBuffer = std::vector<uchar>();
+    }
     if(m_pWorkerException) {
         std::exception_ptr pWorkerException;
         std::swap(pWorkerException,m_pWorkerException); // will not be reported again
@@ -404,7 +409,8 @@ void lv::DataPrecacher::entry(const size_t nBufferSize) {
     try {
         lvDbgExceptionWatch;
         std::list<cv::Mat> lCache;
-        std::vector<uchar> vcBuffer(nBufferSize);
+        std::vector<uchar>& vcBuffer = m_vcBuffer; // must outlive this thread, as the last requested packet might point to it
+        vcBuffer.resize(nBufferSize);
         size_t nNextExpectedReqIdx = 0;
         size_t nNextPrecacheIdx = 0;
         size_t nFirstBufferIdx = size_t(-1);
-- 
2.43.0


From 692526796983c564d45e61b4e43b1c654b01157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:01 +0000
Subject: [PATCH 22/42] fix: resetting output counts after processing stopped
 must not throw future_error

---
 modules/datasets/src/utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index ac94bd8..4f7fd09 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1330,7 +1330,10 @@ void lv::IDataCounter::setOutputCountPromise() {
 }
 
 void lv::IDataCounter::resetOutputCount() {
-    m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    try {
+        m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    }
+    catch(const std::future_error&) {} // the final count was already provided via 'setOutputCountPromise'
     m_mProcessedPackets.clear();
     m_nPacketCountPromise = std::promise<size_t>();
     m_nPacketCountFuture = m_nPacketCountPromise.get_future();
-- 
2.43.0


From a65d490f8c19cb885a23dbfd787942b92c2d986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:33 +0000
Subject: [PATCH 23/42] fix: unpacked packet arrays must always come from the
 packet currently held for the requested index

---
 modules/datasets/src/utils.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 4f7fd09..c6924c1 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -770,7 +770,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getInputArray(size_t nP
     lvDbgExceptionWatch;
     if(getInputStreamCount()==0)
         m_vLatestUnpackedInput.resize(0);
-    else if(m_oInputPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getInputInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getInputStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getInput does not allow reentrancy
@@ -785,7 +785,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
     lvDbgExceptionWatch;
     if(getGTStreamCount()==0)
         m_vLatestUnpackedGT.resize(0);
-    else if(m_oGTPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getGTInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getGTStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getter does not allow reentrancy
@@ -798,12 +798,10 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
 
 const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::loadFeaturesArray(size_t nPacketIdx, const std::vector<lv::MatInfo>& vPackingInfo) {
     lvDbgExceptionWatch;
-    if(m_oFeaturesPrecacher.getLastReqIdx()!=nPacketIdx) {
-        // no need to clone from packed data if loadFeatures does not allow reentrancy
-        const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
-        // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
-        m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
-    }
+    // no need to clone from packed data if loadFeatures does not allow reentrancy
+    const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
+    // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
+    m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
     return m_vLatestUnpackedFeatures;
 }
 
-- 
2.43.0


From f93072b958ed9790016e1584d69831b7ed838e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 24/42] fix: Lam-Lee-Suen thinning must wrap around to the
 first neighbour instead of reading past the array

---
 modules/imgproc/src/imgproc.cpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..1b3ff5a 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -91,29 +91,11 @@ void thinning_internal_LamLeeSuen(cv::Mat& oInput, bool bIter) {
             };
             size_t x_h = 0, n1 = 0, n2 = 0;
             for(size_t k=0; k<4; ++k) {
-#if defined(_MSC_VER) || USE_IMGPROC_THINNING_MATLAB_IMPL_FIX
                 // G1:
                 x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]));
                 // G2:
                 n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
                 n2 += bool(anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]);
-#elif defined(__clang__)
-#pragma clang diagnostic push
-// but no warnings to push...?
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
-#endif //(defined(__GNUC__) || defined(__GNUG__))
-                // G1:
-                x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[2*(k+1)]));
-                // G2:
-                n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
-                n2 += bool(anLUT[2*(k+1)-1] || anLUT[2*(k+1)]);
-#if defined(__clang__)
-#pragma clang diagnostic pop
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic pop
-#endif //(defined(__GNUC__) || defined(__GNUG__))
             }
             size_t n_min = std::min(n1,n2);
             if(x_h==1 && n_min>=2 && n_min<=3) {
-- 
2.43.0


From dd82444704a8ad10078c1c397cf12ca6af089a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 25/42] fix: calcMedianValue must not read past the histogram
 when the mask excludes every element

---
 modules/imgproc/src/imgproc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 1b3ff5a..1e2c193 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -191,6 +191,8 @@ int lv::calcMedianValue(const cv::Mat& oInput, const cv::Mat_<uchar>& oMask, std
     lvDbgAssert(!vCounts.empty());
     if(pHistCounts)
         *pHistCounts = vCounts;
+    if(nTotCount==0)
+        return 0; // no valid element under mask, fall back to default value
     int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
     while(nCurrElemCount<=nHalfCount) {
         nCurrElemCount += vCounts[++nBinVal];
-- 
2.43.0


From b4a72646a2c1263e202ea4079d191765aac3e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 26/42] fix: integral image functions must accept their own
 default output depth

---
 modules/imgproc/src/imgproc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 1e2c193..028c875 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -593,6 +593,8 @@ void lv::computeDescriptorAffinity(const cv::cuda::GpuMat& oDescMap1, const cv::
 
 void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, int nOutDepth) {
     lvAssert_(!oInput.empty() && oInput.depth()==CV_8U && oInput.dims==2 && oInput.isContinuous(),"invalid input matrix");
+    if(nOutDepth==-1)
+        nOutDepth = CV_32S; // same default as opencv's impl
     lvAssert_(nOutDepth==CV_32S || nOutDepth==CV_32F,"invalid requested output matrix depth");
     if(oInput.rows+1!=oIntegralImg.rows || oInput.cols+1!=oIntegralImg.cols || oInput.channels()!=oIntegralImg.channels() || oIntegralImg.depth()!=nOutDepth || !oIntegralImg.isContinuous())
         oIntegralImg.create(oInput.rows+1,oInput.cols+1,CV_MAKE_TYPE(nOutDepth,oInput.channels()));
-- 
2.43.0


From d36170b3bf20aa261c475585a27e4fb77f20851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:17 +0000
Subject: [PATCH 27/42] fix: background subtractors must keep the whole
 initialization frame, since models also sample and describe pixels around the
 ROI

---
 modules/video/src/BackgroundSubtractionUtils.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractionUtils.cpp b/modules/video/src/BackgroundSubtractionUtils.cpp
index 132e464..d77bfb3 100644
--- a/modules/video/src/BackgroundSubtractionUtils.cpp
+++ b/modules/video/src/BackgroundSubtractionUtils.cpp
@@ -113,7 +113,7 @@ void IIBackgroundSubtractor::initialize_common(const cv::Mat& oInitImg, const cv
     m_oLastFGMask.create(m_oImgSize,CV_8UC1);
     m_oLastFGMask = cv::Scalar_<uchar>(0);
     m_oLastColorFrame.create(m_oImgSize,CV_8UC((int)m_nImgChannels));
-    m_oLastColorFrame = cv::Scalar_<uchar>::all(0);
+    oInitImg.copyTo(m_oLastColorFrame); // models may also sample/describe pixels located outside the ROI
     m_vnPxIdxLUT.resize(m_nTotRelevantPxCount);
     m_voPxInfoLUT.resize(m_nTotPxCount);
     if(m_nImgChannels==1) {
@@ -124,7 +124,6 @@ void IIBackgroundSubtractor::initialize_common(const cv::Mat& oInitImg, const cv
             if(m_oROI.data[nPxIter]) {
                 m_vnPxIdxLUT[nModelIter] = nPxIter;
                 m_voPxInfoLUT[nPxIter].nModelIdx = nModelIter;
-                m_oLastColorFrame.data[nPxIter] = oInitImg.data[nPxIter];
                 ++nModelIter;
             }
             else
@@ -139,13 +138,6 @@ void IIBackgroundSubtractor::initialize_common(const cv::Mat& oInitImg, const cv
             if(m_oROI.data[nPxIter]) {
                 m_vnPxIdxLUT[nModelIter] = nPxIter;
                 m_voPxInfoLUT[nPxIter].nModelIdx = nModelIter;
-                const size_t nPxRGBIter = nPxIter*m_nImgChannels;
-                if(m_nImgChannels==3)
-                    for(size_t c=0; c<3; ++c)
-                        m_oLastColorFrame.data[nPxRGBIter+c] = oInitImg.data[nPxRGBIter+c];
-                else //m_nImgChannels==4
-                    for(size_t c=0; c<4; ++c)
-                        m_oLastColorFrame.data[nPxRGBIter+c] = oInitImg.data[nPxRGBIter+c];
                 ++nModelIter;
             }
             else
-- 
2.43.0


From 594b96ba80be98b17529bf2e32ce3adc3137b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:17 +0000
Subject: [PATCH 28/42] fix: LBSP background subtractors must describe every
 pixel whose patch lies inside the initialization frame

---
 modules/video/src/BackgroundSubtractorLBSP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLBSP.cpp b/modules/video/src/BackgroundSubtractorLBSP.cpp
index f68eeeb..1808ae3 100644
--- a/modules/video/src/BackgroundSubtractorLBSP.cpp
+++ b/modules/video/src/BackgroundSubtractorLBSP.cpp
@@ -31,7 +31,7 @@ void IBackgroundSubtractorLBSP_<eImpl>::initialize_common(const cv::Mat& oInitIm
         for(size_t nPxIter=0; nPxIter<this->m_nTotPxCount; ++nPxIter) {
             const int nImgCoord_X = this->m_voPxInfoLUT[nPxIter].nImgCoord_X;
             const int nImgCoord_Y = this->m_voPxInfoLUT[nPxIter].nImgCoord_Y;
-            if(this->m_oROI.data[nPxIter] && nImgCoord_X>nLBSPBorderSize && nImgCoord_Y>nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
+            if(nImgCoord_X>=nLBSPBorderSize && nImgCoord_Y>=nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
                 const size_t nDescIter = nPxIter*2;
                 LBSP::computeDescriptor<1>(oInitImg,oInitImg.data[nPxIter],nImgCoord_X,nImgCoord_Y,0,m_anLBSPThreshold_8bitLUT[oInitImg.data[nPxIter]],*((ushort*)(m_oLastDescFrame.data+nDescIter)));
             }
@@ -44,7 +44,7 @@ void IBackgroundSubtractorLBSP_<eImpl>::initialize_common(const cv::Mat& oInitIm
         for(size_t nPxIter=0; nPxIter<this->m_nTotPxCount; ++nPxIter) {
             const int nImgCoord_X = this->m_voPxInfoLUT[nPxIter].nImgCoord_X;
             const int nImgCoord_Y = this->m_voPxInfoLUT[nPxIter].nImgCoord_Y;
-            if(this->m_oROI.data[nPxIter] && nImgCoord_X>nLBSPBorderSize && nImgCoord_Y>nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
+            if(nImgCoord_X>=nLBSPBorderSize && nImgCoord_Y>=nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
                 const size_t nPxRGBIter = nPxIter*this->m_nImgChannels;
                 const size_t nDescRGBIter = nPxRGBIter*2;
                 if(this->m_nImgChannels==3) {
-- 
2.43.0


From 4d1e5bc28633d4b6d9f356ef43c93d5c29138da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:18 +0000
Subject: [PATCH 29/42] fix: reject 4-channel images in LOBSTER/SuBSENSE, which
 only process 1 or 3 channels

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  | 1 +
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 9c9bf0a..2d8fa1a 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -442,6 +442,7 @@ void BackgroundSubtractorLOBSTER::refreshModel(float fSamplesRefreshFrac, bool b
 void BackgroundSubtractorLOBSTER::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     lvDbgExceptionWatch;
     // == init
+    lvAssert_(oInitImg.channels()!=4,"impl does not support 4-channel images (only 8UC1/3)");
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
     m_voBGColorSamples.resize(m_nBGSamples);
     m_voBGDescSamples.resize(m_nBGSamples);
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 055c778..261f79e 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -106,6 +106,7 @@ void BackgroundSubtractorSuBSENSE::refreshModel(float fSamplesRefreshFrac, bool
 
 void BackgroundSubtractorSuBSENSE::initialize(const cv::Mat& oInitImg, const cv::Mat& oROI) {
     // == init
+    lvAssert_(oInitImg.channels()!=4,"impl does not support 4-channel images (only 8UC1/3)");
     IBackgroundSubtractorLBSP::initialize_common(oInitImg,oROI);
     m_fLastNonZeroDescRatio = 0.0f;
     const int nTotImgPixels = m_oImgSize.height*m_oImgSize.width;
-- 
2.43.0


From 52054497e986074cc62a48865d13d002ec817a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:27 +0000
Subject: [PATCH 30/42] fix: LOBSTER/SuBSENSE write the foreground mask through
 the output array, even when it is a submatrix

---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  | 6 ++----
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 2d8fa1a..a24f140 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -465,9 +465,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
     cv::Mat oInputImg = _oInputImg.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _oFGMask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _oFGMask.getMat();
-    oCurrFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // always continuous (unlike the output mask, which might be a submatrix)
     const size_t nLearningRate = std::isinf(dLearningRate)?SIZE_MAX:(size_t)ceil(dLearningRate);
     if(m_nImgChannels==1) {
         for(size_t nModelIter=0; nModelIter<m_nTotRelevantPxCount; ++nModelIter) {
@@ -577,7 +575,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
         }
     }
     cv::medianBlur(oCurrFGMask,m_oLastFGMask,m_nDefaultMedianBlurKernelSize);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_oFGMask);
     oInputImg.copyTo(m_oLastColorFrame);
 }
 
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 261f79e..cb34cf2 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -192,9 +192,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::Mat oInputImg = _image.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
-    memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // always continuous (unlike the output mask, which might be a submatrix)
     size_t nNonZeroDescCount = 0;
     const float fRollAvgFactor_LT = 1.0f/std::min(++m_nFrameIdx,m_nSamplesForMovingAvgs);
     const float fRollAvgFactor_ST = 1.0f/std::min(m_nFrameIdx,m_nSamplesForMovingAvgs/4);
@@ -550,7 +548,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_fgmask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonZeroDescRatio = (float)nNonZeroDescCount/m_nTotRelevantPxCount;
-- 
2.43.0


From d2d9728a243d2658a7935cca0c98d0e153ab930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:08 +0000
Subject: [PATCH 31/42] fix: report matrix archives that could not be written
 completely

The stream state was only checked before the buffered data reached the file.
---
 modules/utils/src/opencv.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7415925..a615f9f 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -474,7 +474,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             else
                 ssStr << " ";
         }
-        lvAssert_(ssStr,"plain text archive write failed");
+        lvAssert_(ssStr.flush(),"plain text archive write failed");
     }
 #if USING_LZ4
     else if(eArchiveType==MatArchive_BINARY_LZ4) {
@@ -508,7 +508,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             const int32_t nComprSize = 0;
             ssStr.write((const char*)&nComprSize,sizeof(nComprSize));
         }
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
 #endif //USING_LZ4
     else if(eArchiveType==MatArchive_BINARY) {
@@ -527,7 +527,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             ssStr.write((const char*)&nDimSize,sizeof(nDimSize));
         }
         ssStr.write((const char*)(oData.data),nElemSize*nElemCount);
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
     else
         lvError("unrecognized mat archive type flag");
-- 
2.43.0


From 0b040ac4b4a5ea0347cd4d6149ebe99ef769325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:08 +0000
Subject: [PATCH 32/42] fix: keep all significant digits in plain text matrix
 archives

Values were rounded to six significant digits (e.g. integers above 999999).
---
 modules/utils/src/opencv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index a615f9f..68a1c2f 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -464,6 +464,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
         ssStr << "\n\n";
         if(oData.depth()!=CV_64F)
             _oData.convertTo(oData,CV_64F);
+        ssStr.precision(std::numeric_limits<double>::max_digits10); // needed to restore the exact values
         double* pdData = (double*)oData.data;
         for(int nElemIdx=0; nElemIdx<(int)oData.total(); ++nElemIdx) {
             ssStr << *pdData++;
-- 
2.43.0


From 9107a55c23d46c632b0e6a1f4750899cd327e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:08 +0000
Subject: [PATCH 33/42] fix: reject truncated or inconsistent binary matrix
 archives

Uninitialized or contradicting header fields were used as sizes (reading past the matrix),
and archives read into a non-continuous view overwrote its surroundings.
---
 modules/utils/src/opencv.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 68a1c2f..fb89e0f 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -583,27 +583,31 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32,"bad binary archive header");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
-        oData.create(nDims,anSizes.data(),nDataType);
-        lvAssert_(ssStr,"binary archive read failed");
-        if(oData.total()>0u) {
+        lvAssert_(ssStr,"bad binary archive header");
+        cv::Mat oDataTemp(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==(uint64_t)oDataTemp.elemSize() && nElemCount==(uint64_t)oDataTemp.total(),"bad binary archive header");
+        if(oDataTemp.total()>0u) {
             int32_t nComprSize;
             ssStr.read((char*)&nComprSize,sizeof(nComprSize));
             lvAssert_(nComprSize>=0 && uint64_t(nComprSize)<=(nElemSize*nElemCount),"bad lz4 compressed size");
             if(nComprSize==0) // could not compress any more, use raw data instead
-                ssStr.read((char*)(oData.data),nElemSize*nElemCount);
+                ssStr.read((char*)(oDataTemp.data),nElemSize*nElemCount);
             else {
                 static thread_local lv::AutoBuffer<char> s_aDataBuffer;
                 s_aDataBuffer.resize(size_t(nComprSize));
                 ssStr.read(s_aDataBuffer.data(),nComprSize);
                 lvAssert_(ssStr,"binary archive read failed");
                 lvAssert_(nElemSize*nElemCount<uint64_t(std::numeric_limits<int32_t>::max()),"binary mat size too big for lz4");
-                const int nDecomprRes = LZ4_decompress_safe(s_aDataBuffer.data(),(char*)(oData.data),nComprSize,int(nElemSize*nElemCount));
+                const int nDecomprRes = LZ4_decompress_safe(s_aDataBuffer.data(),(char*)(oDataTemp.data),nComprSize,int(nElemSize*nElemCount));
                 lvAssert__(nDecomprRes==int(nElemSize*nElemCount),"lz4 decompression failed (%d)",nDecomprRes);
             }
         }
+        lvAssert_(ssStr,"binary archive read failed");
+        oData = oDataTemp;
     }
 #endif //USING_LZ4
     else if(eArchiveType==MatArchive_BINARY) {
@@ -617,12 +621,16 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32,"bad binary archive header");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
-        oData.create(nDims,anSizes.data(),nDataType);
-        ssStr.read((char*)(oData.data),nElemSize*nElemCount);
+        lvAssert_(ssStr,"bad binary archive header");
+        cv::Mat oDataTemp(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==(uint64_t)oDataTemp.elemSize() && nElemCount==(uint64_t)oDataTemp.total(),"bad binary archive header");
+        ssStr.read((char*)(oDataTemp.data),nElemSize*nElemCount);
         lvAssert_(ssStr,"binary archive read failed");
+        oData = oDataTemp;
     }
     else
         lvError("unrecognized mat archive type flag");
-- 
2.43.0


From 822dfeeaff37821a86a41750a11edbc9a6c4bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:08 +0000
Subject: [PATCH 34/42] fix: report output images that could not be archived

---
 modules/datasets/src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c6924c1..ad245b1 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1519,7 +1519,7 @@ void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_
         }
         const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
         sOutputFilePath << ".png";
-        cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+        lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output image at '%s'",sOutputFilePath.str().c_str());
     }
     else {
         sOutputFilePath << ".bin";
@@ -1596,7 +1596,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
             }
             const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
             sOutputFilePath << ".png";
-            cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+            lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output image at '%s'",sOutputFilePath.str().c_str());
         }
         else {
             sOutputFilePath << ".bin";
@@ -1623,7 +1623,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                 }
                 const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
                 sOutputFilePath << ".png";
-                cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+                lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output image at '%s'",sOutputFilePath.str().c_str());
             }
             else {
                 sOutputFilePath << ".bin";
-- 
2.43.0


From d92d1e26306d53994f87cb38d88a99095edf28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 35/42] fix: local differences of images smaller than the
 offset wrote out of bounds

---
 modules/features2d/include/litiv/features2d.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/modules/features2d/include/litiv/features2d.hpp b/modules/features2d/include/litiv/features2d.hpp
index 6f8daa0..9d86536 100644
--- a/modules/features2d/include/litiv/features2d.hpp
+++ b/modules/features2d/include/litiv/features2d.hpp
@@ -35,14 +35,12 @@ namespace lv {
         for(int nRowIdx=int(nRowOffset); nRowIdx<oImage.rows; ++nRowIdx)
             for(int nColIdx=int(nColOffset); nColIdx<oImage.cols; ++nColIdx)
                 oLocalDiff(nRowIdx,nColIdx) = oImage(nRowIdx-nRowOffset,nColIdx-nColOffset)-oImage(nRowIdx,nColIdx);
-        lv::unroll<nRowOffset>([&](size_t nRowIdx){
+        for(int nRowIdx=0; nRowIdx<std::min(int(nRowOffset),oImage.rows); ++nRowIdx)
             for(int nColIdx=0; nColIdx<oImage.cols; ++nColIdx)
-                oLocalDiff((int)nRowIdx,nColIdx) = (T)0;
-        });
-        lv::unroll<nColOffset>([&](size_t nColIdx){
+                oLocalDiff(nRowIdx,nColIdx) = (T)0;
+        for(int nColIdx=0; nColIdx<std::min(int(nColOffset),oImage.cols); ++nColIdx)
             for(int nRowIdx=int(nRowOffset); nRowIdx<oImage.rows; ++nRowIdx)
-                oLocalDiff(nRowIdx,(int)nColIdx) = (T)0;
-        });
+                oLocalDiff(nRowIdx,nColIdx) = (T)0;
     }
 
     /// helper struct containing joint & marginal probability histograms (dense/full-range version)
-- 
2.43.0


From 792bc9cd637724f38aa88b140b9f31c382afb1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:27 +0000
Subject: [PATCH 36/42] fix: mutual information with fast approximations
 ignored the joint histogram

---
 modules/features2d/include/litiv/features2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/features2d/include/litiv/features2d.hpp b/modules/features2d/include/litiv/features2d.hpp
index 9d86536..6d0a246 100644
--- a/modules/features2d/include/litiv/features2d.hpp
+++ b/modules/features2d/include/litiv/features2d.hpp
@@ -170,9 +170,9 @@ namespace lv {
         lvDbgAssert(lv::getElemCount(pJointProbHistOutput->aMargHists[0])>0 && lv::getElemCount(pJointProbHistOutput->aMargHists[1])>0 && lv::getElemCount(pJointProbHistOutput->oJointHist)>0);
         double dMutualInfoScore = 0.0f;
         std::array<int,2> anIterPos;
-        for(auto pIter=pJointProbHistOutput->oJointCount.begin(); pIter!=pJointProbHistOutput->oJointCount.end(); ++pIter) {
+        for(auto pIter=pJointProbHistOutput->oJointHist.begin(); pIter!=pJointProbHistOutput->oJointHist.end(); ++pIter) { // joint counts are not filled when using fast approximations
             const int* anPos = lv::getIterPos(pIter,anIterPos);
-            const float& fCurrElemJointProb = lv::getElem(pJointProbHistOutput->oJointHist,anPos);
+            const float fCurrElemJointProb = *pIter;
             if(fCurrElemJointProb>0) {
                 const float& fCurrElemMargProb1 = lv::getElem(pJointProbHistOutput->aMargHists[0],std::array<int,2>{anPos[0],0}.data());
                 const float& fCurrElemMargProb2 = lv::getElem(pJointProbHistOutput->aMargHists[1],std::array<int,2>{anPos[1],0}.data());
-- 
2.43.0


From 61e4610aee6b4fcf005ebfde2ab79e3fb5446543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:28 +0000
Subject: [PATCH 37/42] fix: mutual information ROI validation dropped the last
 valid row and column

---
 modules/features2d/src/MI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/MI.cpp b/modules/features2d/src/MI.cpp
index 1ecf8f3..846a7a0 100644
--- a/modules/features2d/src/MI.cpp
+++ b/modules/features2d/src/MI.cpp
@@ -156,7 +156,7 @@ void MutualInfo::validateKeyPoints(std::vector<cv::KeyPoint>& voKeypoints, cv::S
 void MutualInfo::validateROI(cv::Mat& oROI) const {
     lvAssert_(!oROI.empty() && oROI.type()==CV_8UC1,"input ROI must be non-empty and of type 8UC1");
     cv::Mat oROI_new(oROI.size(),CV_8UC1,cv::Scalar_<uchar>(0));
-    const cv::Rect nROI_inner(m_oWinSize.width/2,m_oWinSize.height/2,oROI.cols-m_oWinSize.width,oROI.rows-m_oWinSize.height);
+    const cv::Rect nROI_inner(m_oWinSize.width/2,m_oWinSize.height/2,oROI.cols-(m_oWinSize.width/2)*2,oROI.rows-(m_oWinSize.height/2)*2);
     cv::Mat(oROI,nROI_inner).copyTo(cv::Mat(oROI_new,nROI_inner));
     oROI = oROI_new;
 }
\ No newline at end of file
-- 
2.43.0


From 7119b1e715375c47f5bbe905076ee5b468edf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:26 +0000
Subject: [PATCH 38/42] fix: datasets: do not assert on work groups left empty
 by skip tokens when printing the data structure

---
 modules/datasets/src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index ad245b1..da80176 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -108,6 +108,8 @@ const std::vector<std::string>& lv::DataHandler::getSkipTokens() const {
 std::string lv::DataHandler::printDataStructure(const std::string& sPrefix) const {
     if(isGroup() && isBare()) {
         auto vBatches = getBatches(true);
+        if(vBatches.empty()) // happens when the whole group directory is ignored due to skip tokens
+            return sPrefix + " Group '" + getName() + "' [skipped]\n";
         lvAssert(vBatches.size()==1);
         return vBatches[0]->printDataStructure(sPrefix);
     }
-- 
2.43.0


From 0937782b4f0a993bc7ef387eabf699e488c52901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:26 +0000
Subject: [PATCH 39/42] fix: utils: compute determinants and inverses of
 integer matrices in floating point

---
 modules/utils/include/litiv/utils/math.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 5f488da..ccf41a6 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -1064,10 +1064,11 @@ namespace lv {
     #ifdef _MSC_VER
     #pragma warning(pop)
     #endif //def(_MSC_VER)
-        static thread_local lv::AutoBuffer<TVal,N*N> s_aMatCopy(N*N);
+        using TCalc = std::conditional_t<std::is_integral<TVal>::value,double,TVal>; // LU decomposition needs real divisions
+        static thread_local lv::AutoBuffer<TCalc,N*N> s_aMatCopy(N*N);
         lvDbgAssert(s_aMatCopy.size()==N*N && s_aMatCopy.is_static());
         std::copy_n(m,N*N,s_aMatCopy.data());
-        double p = lv::LU(s_aMatCopy.data(),N*sizeof(TVal),int(N));
+        double p = lv::LU(s_aMatCopy.data(),N*sizeof(TCalc),int(N));
         if(p==0)
             return p;
         lv::unroll<N>([&](size_t n){p *= s_aMatCopy[n*N+n];});
@@ -1121,13 +1122,16 @@ namespace lv {
     #ifdef _MSC_VER
     #pragma warning(pop)
     #endif //def(_MSC_VER)
-        static thread_local lv::AutoBuffer<TVal,N*N> s_aMatCopy(N*N);
+        using TCalc = std::conditional_t<std::is_integral<TVal>::value,double,TVal>; // LU decomposition needs real divisions
+        static thread_local lv::AutoBuffer<TCalc,N*N> s_aMatCopy(N*N),s_aMatInv(N*N);
         lvDbgAssert(s_aMatCopy.size()==N*N && s_aMatCopy.is_static());
         std::copy_n(in,N*N,s_aMatCopy.data());
-        std::fill_n(out,N*N,TVal(0));
-        lv::unroll<N>([&](size_t n){out[n*N+n] = TVal(1);});
-        const size_t nRowStep_byte = N*sizeof(TVal);
-        return lv::LU(s_aMatCopy.data(),nRowStep_byte,int(N),out,nRowStep_byte,int(N))!=0;
+        std::fill_n(s_aMatInv.data(),N*N,TCalc(0));
+        lv::unroll<N>([&](size_t n){s_aMatInv[n*N+n] = TCalc(1);});
+        const size_t nRowStep_byte = N*sizeof(TCalc);
+        const bool bInverted = lv::LU(s_aMatCopy.data(),nRowStep_byte,int(N),s_aMatInv.data(),nRowStep_byte,int(N))!=0;
+        std::transform(s_aMatInv.data(),s_aMatInv.data()+N*N,out,[](TCalc v){return TVal(v);});
+        return bInverted;
     }
 
 #if USE_CVCORE_WITH_UTILS
-- 
2.43.0


From ba5e9168c0677878142ba046aee4c4b9bd47a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 40/42] fix: utils: log-polar masks with a single radial bin
 were empty (0/0 radius)

---
 modules/utils/src/opencv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index fb89e0f..173baac 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -53,6 +53,8 @@ void lv::getLogPolarMask(int nMaskSize, int nRadialBins, int nAngularBins, cv::M
         const float fRadBinPowBase = (float)std::pow(nRadialBins,1/(float)nRadialBins);
         for(int nRadBinIdx=0; nRadBinIdx<nRadialBins; ++nRadBinIdx)
             vRadBinDists[nRadBinIdx] = float(((std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1)*nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
+        if(nRadialBins==1) // the expression above is undefined (0/0) with a single bin, which should cover the full radius
+            vRadBinDists[0] = float(nCenterIdx);
         for(int nRowIdx=0; nRowIdx<nMaskSize; ++nRowIdx) {
             int* const pnMaskRow = oOutputMask.ptr<int>(nRowIdx);
             for(int nColIdx=0; nColIdx<nMaskSize; ++nColIdx,++nCurrMaskIdx) {
-- 
2.43.0


From 16869f965eef5c4711360ad6452ba3d2ce46c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 41/42] fix: ShapeContext: describe every pixel again after
 keypoints of another image were requested

---
 modules/features2d/src/SC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 915bda7..d4076e0 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -281,6 +281,7 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
     cv::Mat oMask = _oMask.getMat();
     lvAssert_(oMask.empty() || (!oMask.empty() && oMask.size()==oImage.size()),"mask must be empty or of equal size to the input image");
     scdesc_fill_contours(oImage);
+    m_bUsingFullKeyPtMap = false; // the image size just changed; the full keypoint map cannot be reused
     if(!bUseProvidedKeypoints) {
         voKeypoints.resize(m_oContourPts.total());
         for(size_t nContourPtIdx=0; nContourPtIdx<voKeypoints.size(); ++nContourPtIdx)
@@ -292,7 +293,6 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
         _oDescriptors.release();
         return;
     }
-    m_bUsingFullKeyPtMap = false;
     m_oKeyPts.create((int)voKeypoints.size(),1);
     for(size_t nKeyPtIdx=0; nKeyPtIdx<voKeypoints.size(); ++nKeyPtIdx)
         m_oKeyPts((int)nKeyPtIdx) = voKeypoints[nKeyPtIdx].pt;
-- 
2.43.0


From 69525dd12aca6d5d15c5e0251db207e3e714f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:16 +0000
Subject: [PATCH 42/42] fix: ShapeContext: return the descriptor map also into
 a matrix of another size

---
 modules/features2d/src/SC.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index d4076e0..4bd1751 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -212,10 +212,8 @@ int ShapeContext::chainDetectMethod() const {
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap; // might have been reallocated
 }
 
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
-- 
2.43.0

