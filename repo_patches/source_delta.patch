From bfea8ffa5be88513193bd83670617b8359a73edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 01/51] fix: exchange the allocation flag when swapping buffers

Assigning twice to a default constructed vector threw, as the temporary
buffer received a null pointer but stayed marked as allocated.
---
 include/etr_bits/Core/BaseStore.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 144b8e4..fb6e9d6 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -294,15 +294,17 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   template <typename L2> BaseStore &moveit(L2 &other) {
     T *temporary = other.p;
-    int tempSize = other.sz;
-    int tempCapacity = other.capacity;
+    std::size_t tempSize = other.sz;
+    std::size_t tempCapacity = other.capacity;
+    bool tempAllocated = other.allocated;
     other.p = this->p;
     other.sz = this->sz;
     other.capacity = this->capacity;
+    other.allocated = this->allocated;
     this->p = temporary;
     this->sz = tempSize;
     this->capacity = tempCapacity;
-    allocated = true;
+    this->allocated = tempAllocated;
     return *this;
   }
   auto begin() const { return It<T>{p}; }
-- 
2.43.0


From 8db764a0a12eed657f6ac75960b132fe15cc4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 02/51] fix: keep the matrix dimensions when a vector is copied
 or moved

---
 include/etr_bits/Core/BaseStore.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index fb6e9d6..e374c54 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -34,7 +34,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
 
   // constructors
   BaseStore(const BaseStore<T> &other)
-      : sz(other.sz), capacity(other.capacity), allocated(other.allocated) {
+      : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
+        mp(other.mp) {
     if (other.allocated) {
       p = new T[capacity];
       std::copy(other.p, other.p + capacity, p);
@@ -44,7 +45,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   BaseStore(BaseStore<T> &&other) noexcept
       : sz(other.sz), capacity(other.capacity), allocated(other.allocated),
-        p(other.p) {
+        p(other.p), mp(other.mp) {
+    other.mp.setMatrix(false, 0, 0);
     other.capacity = 0;
     other.sz = 0;
     other.allocated = false;
-- 
2.43.0


From 9de91943cfefce87d131894cd69ae74bc5e561a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 03/51] fix: take over the capacity when constructing from a
 temporary

A copy of such a vector allocated zero elements but claimed the full size.
---
 include/etr_bits/Vector/Constructors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index b9c576f..84289a8 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -203,6 +203,9 @@ Vec(Vec<T2, R2, Trait2> &&other_vec) {
     d.allocated = other_vec.d.allocated;
     other_vec.d.sz = this->size();
     d.sz = temp;
+    std::size_t tempCapacity = other_vec.d.capacity;
+    other_vec.d.capacity = d.capacity;
+    d.capacity = tempCapacity;
     T *tempP = other_vec.d.p;
     other_vec.d.p = d.p;
     d.p = tempP;
-- 
2.43.0


From 8adc493d66a9d2e6da010c4feb1ed869de2a0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 04/51] fix: assigning a non matrix value drops the old matrix
 dimensions

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index a813443..52cb8b2 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -19,9 +19,11 @@ Vec &operator=(const TD inp) {
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
       d[0] = inp;
+      d.setMatrix(false, 0, 0);
     } else {
       d.resize(1);
       d[0] = inp;
+      d.setMatrix(false, 0, 0);
     }
     return *this;
   } else {
@@ -32,9 +34,11 @@ Vec &operator=(const TD inp) {
     } else if constexpr (isBorrow::value) {
       d.sz = 1;
       d[0] = static_cast<T>(inp);
+      d.setMatrix(false, 0, 0);
     } else {
       d.resize(1);
       d[0] = static_cast<T>(inp);
+      d.setMatrix(false, 0, 0);
     }
     return *this;
   }
@@ -105,6 +109,8 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
   }
   if (otherVec.d.im()) {
     d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+  } else {
+    d.setMatrix(false, 0, 0);
   }
   return *this;
 }
@@ -230,10 +236,14 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
   if constexpr (isVariableType::value) {
     if (otherVec.d.im()) {
       d.setMatrix(d.AllVarsRef, true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(d.AllVarsRef, false, 0, 0);
     }
   } else {
     if (otherVec.d.im()) {
       d.setMatrix(true, otherVec.d.nr(), otherVec.d.nc());
+    } else {
+      d.setMatrix(false, 0, 0);
     }
   }
   return *this;
-- 
2.43.0


From 736c3f007f349e0bc816fc4b1ef961816fc2e2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 05/51] fix: assigning a subset to a subset never resizes the
 variable

With repeated indices the assigned variable grew and lost its elements.
---
 include/etr_bits/Vector/AssignmentOperator.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 52cb8b2..3114eaa 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -101,8 +101,6 @@ Vec &operator=(const Vec<T, R, Trait> &otherVec) {
         temp[i] = static_cast<T>(otherVec[i]);
       }
     }
-    if (d.p->size() < temp.size())
-      d.resize(temp.size());
     for (std::size_t i = 0; i < d.ind.size(); i++) {
       d[i % d.ind.size()] = temp[i];
     }
-- 
2.43.0


From 1eedbcd78558c6b687ab0102e13c44510e31ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 06/51] fix: recycle a subset over its indices and not over the
 variable

---
 include/etr_bits/Core/SubsetClass.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Core/SubsetClass.hpp b/include/etr_bits/Core/SubsetClass.hpp
index 26bc638..3e0b8c8 100644
--- a/include/etr_bits/Core/SubsetClass.hpp
+++ b/include/etr_bits/Core/SubsetClass.hpp
@@ -61,12 +61,12 @@ template <typename T, typename SubsetTrait> struct Subset {
 
   CurrentBaseType &operator[](std::size_t pos) {
     ass(this->p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
@@ -129,7 +129,7 @@ struct Subset<const T, SubsetTrait> {
 
   const CurrentBaseType operator[](std::size_t pos) const {
     ass(p != nullptr, "Subset is pointing to nothing!");
-    return this->p->operator[](ind[pos % p->size()]);
+    return this->p->operator[](ind[pos % ind.size()]);
   }
 
   ~Subset() {}
-- 
2.43.0


From 5244c5de31fa145780181b8f7b34c5e30a4df579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 07/51] fix: unary operations on a matrix keep its dimensions

---
 include/etr_bits/UnaryCalculations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 3b0be8e..a675607 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -15,9 +15,9 @@ template <typename I, typename Trait, typename CTrait> struct UnaryOperation {
   MatrixParameter mp;
   bool im() const {
     if constexpr (std::is_arithmetic_v<I>) {
-      return obj.im();
-    } else {
       return false;
+    } else {
+      return obj.im();
     }
   }
 
-- 
2.43.0


From 46cda156dfc7263c1a4f5e9b740094559df07d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 08/51] fix: back() refers to the last element and not behind
 it

---
 include/etr_bits/Core/BaseStore.hpp     | 2 +-
 include/etr_bits/Core/Borrow.hpp        | 2 +-
 include/etr_bits/Core/BorrowSEXP.hpp    | 2 +-
 include/etr_bits/Vector/VectorClass.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index e374c54..ad72f98 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -311,7 +311,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
   }
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
 
   void realloc(std::size_t new_size) {
diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index bed8808..eb909e0 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -154,7 +154,7 @@ template <typename T, typename BorrowTrait> struct Borrow {
   template <typename L2> Borrow &moveit(L2 &other) = delete;
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) = delete;
   void push_back(T input) = delete;
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 4023ba6..7aa3d8c 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -213,7 +213,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
 
   auto begin() const { return It<T>{p}; }
   auto end() const { return It<T>{p + sz}; }
-  T &back() { return p[sz]; }
+  T &back() { return p[sz - 1]; }
   T *data() const { return p; }
   void realloc(int new_size) {
     if (new_size <= sz) {
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index ce974b2..e7b6b42 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -83,7 +83,7 @@ template <typename T, typename R, typename Trait> struct Vec {
     }
   }
 
-  T &back() const { return d.p[this->size()]; }
+  T &back() const { return d.p[this->size() - 1]; }
   void fill(T value) { d.fill(value); }
   void resize(std::size_t newSize) { d.resize(newSize); }
   friend std::ostream &operator<<(std::ostream &os, const Vec &vec) {
-- 
2.43.0


From f649b0d1ae3df88e0035310d12708dee188365df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 09/51] fix: linear interpolation reads the last element and
 computes the slope

---
 include/etr_bits/Interpolation.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/etr_bits/Interpolation.hpp b/include/etr_bits/Interpolation.hpp
index dd943e8..4cd590e 100644
--- a/include/etr_bits/Interpolation.hpp
+++ b/include/etr_bits/Interpolation.hpp
@@ -21,11 +21,11 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = t_[0];
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
@@ -40,6 +40,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
@@ -48,11 +49,11 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
     double t = static_cast<BaseType>(t_);
     double t0, t1;
     double y0, y1, deltaPar, deltaT, m;
-    double ret;
+    double ret = NA;
     ass(timeVec.size() == parVec.size(), "x and y differ in length");
     // not in boundaries
-    if (t >= timeVec[timeVec.size()]) {
-      ret = parVec[parVec.size()];
+    if (t >= timeVec[timeVec.size() - 1]) {
+      ret = parVec[parVec.size() - 1];
       return ret;
     } else if (t <= timeVec[0]) {
       ret = parVec[0];
@@ -67,6 +68,7 @@ inline double li(const A &t_, const B &timeVec, const C &parVec) {
         y1 = parVec[i + 1];
         deltaPar = y1 - y0;
         deltaT = t1 - t0;
+        m = deltaPar / deltaT;
         ret = m * (t - t0) + y0;
       }
     }
-- 
2.43.0


From 0a489641189b4242f837ddcac24eddbfba755663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 10/51] fix: make == and != complementary

At a distance of exactly 1E-3, for two equal infinities and for NaN
neither of both was true.
---
 include/etr_bits/Core/Traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index 5802388..be1577d 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -279,7 +279,7 @@ struct EqualTrait {
   static inline bool
   f(L a,
     R b) { // issue: add this to documentationion for package authors
-    if (fabs(a - b) < 1E-3) {
+    if (a == b || fabs(a - b) < 1E-3) {
       return true;
     } else {
       return false;
@@ -329,7 +329,7 @@ struct LargerEqualTrait {
 struct UnEqualTrait {
   template <typename L = BaseType, typename R = BaseType>
   static bool f(L a, R b) {
-    if (fabs(a - b) > 1E-3) {
+    if (!(a == b || fabs(a - b) < 1E-3)) {
       return true;
     } else {
       return false;
-- 
2.43.0


From 1be39bbef1c426ed988d147f3e77e2611fd8c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 11/51] fix: a borrowed matrix borrows the memory passed to it

---
 include/etr_bits/Vector/Constructors.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/Constructors.hpp b/include/etr_bits/Vector/Constructors.hpp
index 84289a8..5142ec3 100644
--- a/include/etr_bits/Vector/Constructors.hpp
+++ b/include/etr_bits/Vector/Constructors.hpp
@@ -226,8 +226,12 @@ Vec(BaseType *ptr, std::size_t size) : d(size) {
   }
 }
 Vec(BaseType *ptr, std::size_t rows, std::size_t cols) : d(rows * cols) {
-  for (std::size_t i = 0; i < d.size(); i++)
-    d[i] = ptr[i];
+  if constexpr (isBorrow::value) {
+    d.init(ptr, rows * cols);
+  } else {
+    for (std::size_t i = 0; i < d.size(); i++)
+      d[i] = ptr[i];
+  }
   d.setMatrix(true, rows, cols);
 }
 
-- 
2.43.0


From de8aa6990db52c928551029b2f6c5d0d6acf2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 12/51] fix: filling borrowed memory from a temporary copies
 the elements

The borrowed memory was deleted and replaced by the one of the temporary.
---
 include/etr_bits/Core/Borrow.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/etr_bits/Core/Borrow.hpp b/include/etr_bits/Core/Borrow.hpp
index eb909e0..711aa66 100644
--- a/include/etr_bits/Core/Borrow.hpp
+++ b/include/etr_bits/Core/Borrow.hpp
@@ -103,12 +103,6 @@ template <typename T, typename BorrowTrait> struct Borrow {
         DataType *ptr = inp.getPtr();
         std::copy(ptr, ptr + sz, p);
       }
-    } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
-      DataType *ptr = inp.getPtr();
-      inp.d.p = nullptr;
-      inp.d.allocated = false;
-      p = ptr;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From e489817314ed3fb65774937fac623710457fb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 13/51] fix: take over the capacity when filling from a
 temporary

---
 include/etr_bits/Core/BaseStore.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index ad72f98..6352461 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -171,6 +171,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
       delete[] p;
       DataType *ptr = inp.getPtr();
+      capacity = inp.d.capacity;
       inp.d.p = nullptr;
       inp.d.allocated = false;
       p = ptr;
-- 
2.43.0


From 1b62fee5ab226e632a8058b2eec7bd079fcfbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 14/51] fix: vector_logical uses the size passed as a variable

The size was converted to bool, the result always had one element.
---
 include/etr_bits/Allocation/Vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 7e27d3b..841cd45 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -54,14 +54,14 @@ template <typename T> inline auto vector_logical(const T &inp) {
 
 template <typename T> inline auto vector_logical(T &inp) {
   if constexpr (std::is_same_v<T, std::size_t>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_floating_point_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (std::is_integral_v<T>) {
-    return createRVec<bool>(inp);
+    return createRVec<int>(inp);
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
-    return createRVec<bool>(inp[0]);
+    return createRVec<int>(inp[0]);
   } else {
     static_assert(sizeof(T) == 0, "Unsupported type in vector");
   }
-- 
2.43.0


From c2a7a40831056c0a12c9d6c970f88c61eb011c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 15/51] fix: matrix element selected by two doubles uses the
 column index

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index a2499f5..e16c68b 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -234,7 +234,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     std::size_t indexRow = convertSize(*idxL);
     indexRow--;
     ind.resize(1);
-    ind[0] = convertSize(*idxR) - 1 * vec.nr() + indexRow;
+    ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, double> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
-- 
2.43.0


From 7b470d568c6fefe92f3da573d1f0648d0921a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 16/51] fix: floor the column index in matrix(vec<double>,
 double)

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index e16c68b..15e608e 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -437,7 +437,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
       }
       return;
     } else {
-- 
2.43.0


From 4671e0edc01846610247c2fe179e883de6911e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 17/51] fix: matrix subsets with logical rows keep their
 dimensions

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 15e608e..7eddb45 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -45,7 +45,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.size());
       for (std::size_t i = 0; i < vec.size(); i++)
         ind[i] = i;
-      mp.setMatrix(vec.d.mp);
+      mp.setMatrix(true, vec.nr(), vec.nc());
       return;
     } else {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
@@ -521,6 +521,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
           counter++;
         }
       }
+      mp.setMatrix(true, positions.size(), idxR->size());
       return;
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
-- 
2.43.0


From 24432177d91bd91ff5dbec64ba3cdf9f80763c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 18/51] fix: logical matrix indices are recycled and length
 checked in all combinations

---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 60 +++++++++++--------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 7eddb45..de61d92 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -81,18 +81,20 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      ass(idxR->size() <= vec.nc(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nc(); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       ass(counter > 0, "subset has to have at least one element");
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0)
           counter2++;
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -293,17 +295,19 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
         return;
       }
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i])
+      ass(idxL->size() <= vec.nr(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nr(); i++) {
+        if ((*idxL)[i % idxL->size()])
           counter++;
       }
       BaseStore<std::size_t> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0)
           counter2++;
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -451,36 +455,40 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeR, bool> && is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
-        if ((*idxL)[i] == true) {
+      ass(idxL->size() <= vec.nr(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nr(); i++) {
+        if ((*idxL)[i % idxL->size()] == true) {
           counter++;
         }
       }
       BaseStore<int> positions_rows(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions_rows[counter] = i - counter2 * vec.nr();
           counter++;
         }
       }
       counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
-        if ((*idxR)[i])
+      ass(idxR->size() <= vec.nc(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nc(); i++) {
+        if ((*idxR)[i % idxR->size()])
           counter++;
       }
       BaseStore<int> positions_cols(counter);
       counter = 0;
       counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions_cols[counter] = i - counter2 * vec.nc();
           counter++;
         }
@@ -498,17 +506,19 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, bool> &&
                          (is<DataTypeC, int> || is<DataTypeC, double>)) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++)
-        if ((*idxL)[i])
+      ass(idxL->size() <= vec.nr(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nr(); i++)
+        if ((*idxL)[i % idxL->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxL->size(); i++) {
+      for (std::size_t i = 0; i < vec.nr(); i++) {
         if (((i % vec.nr()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxL)[i]) {
+        if ((*idxL)[i % idxL->size()]) {
           positions[counter] = i - counter2 * vec.nr();
           counter++;
         }
@@ -526,17 +536,19 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr ((is<DataTypeR, int> ||
                           is<DataTypeR, double>)&&is<DataTypeC, bool>) {
       std::size_t counter = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++)
-        if ((*idxR)[i])
+      ass(idxR->size() <= vec.nc(),
+          "Error in matrix: logical subscript too long");
+      for (std::size_t i = 0; i < vec.nc(); i++)
+        if ((*idxR)[i % idxR->size()])
           counter++;
       BaseStore<int> positions(counter);
       counter = 0;
       std::size_t counter2 = 0;
-      for (std::size_t i = 0; i < idxR->size(); i++) {
+      for (std::size_t i = 0; i < vec.nc(); i++) {
         if (((i % vec.nc()) == 0) && i != 0) {
           counter2++;
         }
-        if ((*idxR)[i]) {
+        if ((*idxR)[i % idxR->size()]) {
           positions[counter] = i - counter2 * vec.nc();
           counter++;
         }
-- 
2.43.0


From ac241482066b593bbd88acc34969ff835ade3b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 19/51] fix: a matrix row index outside of the matrix is an
 error

---
 .../etr_bits/Subsetting/MatrixSubsetting.hpp  | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index de61d92..0479264 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -35,6 +35,14 @@ namespace etr {
 [25,] "vecbool" "vecbool"
 */
 
+// Returns the 0 based row. A row outside of the matrix is placed behind all
+// elements, thus accessing it is an error instead of reading another column.
+inline std::size_t rowIndex(int row, std::size_t nrow) {
+  if (row < 1 || static_cast<std::size_t>(row) > nrow)
+    return std::numeric_limits<std::size_t>::max() / 2;
+  return static_cast<std::size_t>(row) - 1;
+}
+
 template <typename T, typename I, typename R, typename C>
 inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
                           const C *idxR) {
@@ -145,6 +153,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   // NOTE: int + X
   else if constexpr (isd<R, int, C, bool>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
+    ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     if (!(*idxR)) {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
       return;
@@ -156,12 +165,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     return;
   } else if constexpr (isd<R, int, C, int>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
+    ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     indexRow--;
     ind.resize(1);
     ind[0] = (*idxR - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (isd<R, int, C, double>) {
     std::size_t indexRow = static_cast<std::size_t>(*idxL);
+    ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     indexRow--;
     ind.resize(1);
     ind[0] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + indexRow;
@@ -170,6 +181,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeC, bool>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
+      ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
@@ -197,6 +209,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       return;
     } else if constexpr (is<DataTypeC, int>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
+      ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
@@ -204,6 +217,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
+      ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
@@ -217,6 +231,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
   // NOTE: double + x
   else if constexpr (isd<R, double, C, bool>) {
     std::size_t indexRow = convertSize(*idxL);
+    ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     if (!(*idxR)) {
       ass(false, "Variable[FALSE, FALSE] subsetting is not supported. Sorry");
       return;
@@ -228,12 +243,14 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     return;
   } else if constexpr (isd<R, double, C, int>) {
     std::size_t indexRow = convertSize(*idxL);
+    ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     indexRow--;
     ind.resize(1);
     ind[0] = (*idxR - 1) * convertSize(vec.nr()) + indexRow;
     return;
   } else if constexpr (isd<R, double, C, double>) {
     std::size_t indexRow = convertSize(*idxL);
+    ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     indexRow--;
     ind.resize(1);
     ind[0] = (convertSize(*idxR) - 1) * vec.nr() + indexRow;
@@ -242,6 +259,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     using DataTypeC = ExtractDataType<C>::RetType;
     if constexpr (is<DataTypeC, bool>) {
       std::size_t indexRow = convertSize(*idxL);
+      ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
       std::size_t counter = 0;
       ass(idxR->size() <= vec.nc(),
           "Error in matrix: logical subscript too long");
@@ -269,6 +287,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       return;
     } else if constexpr (is<DataTypeC, int>) {
       std::size_t indexRow = convertSize(*idxL);
+      ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
@@ -276,6 +295,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = convertSize(*idxL);
+      ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
@@ -332,7 +352,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + ((*idxL)[j] - 1);
+          ind[counter] = i * vec.nr() + rowIndex((*idxL)[j], vec.nr());
           counter++;
         }
       }
@@ -347,7 +367,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       std::size_t counter = 0;
       for (std::size_t i = 0; i < vec.nc(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
-          ind[counter] = i * vec.nr() + (d2i((*idxL)[j]) - 1);
+          ind[counter] = i * vec.nr() + rowIndex((*idxL)[j], vec.nr());
           counter++;
         }
       }
@@ -389,13 +409,13 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = ((*idxR) - 1) * vec.nr() + rowIndex((*idxL)[j], vec.nr());
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = ((*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = ((*idxR) - 1) * vec.nr() + rowIndex((*idxL)[j], vec.nr());
       }
       return;
     } else {
@@ -435,13 +455,13 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     } else if constexpr (is<DataTypeR, int>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + ((*idxL)[j] - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + rowIndex((*idxL)[j], vec.nr());
       }
       return;
     } else if constexpr (is<DataTypeR, double>) {
       ind.resize(idxL->size());
       for (int j = 0; j < idxL->size(); j++) {
-        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+        ind[j] = (convertSize(*idxR) - 1) * vec.nr() + rowIndex((*idxL)[j], vec.nr());
       }
       return;
     } else {
@@ -557,7 +577,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       counter = 0;
       for (std::size_t j = 0; j < positions.size(); j++) {
         for (std::size_t i = 0; i < idxL->size(); i++) {
-          ind[counter] = (positions[j]) * vec.nr() + d2i((*idxL)[i]) - 1;
+          ind[counter] = (positions[j]) * vec.nr() + rowIndex((*idxL)[i], vec.nr());
           counter++;
         }
       }
@@ -570,7 +590,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       for (std::size_t i = 0; i < idxR->size(); i++) {
         for (std::size_t j = 0; j < idxL->size(); j++) {
           ind[counter] =
-              (d2i((*idxR)[i]) - 1) * vec.nr() + (d2i((*idxL)[j]) - 1);
+              (d2i((*idxR)[i]) - 1) * vec.nr() + rowIndex((*idxL)[j], vec.nr());
           counter++;
         }
       }
-- 
2.43.0


From 3ae67a84f53e00dee41806a4467e8e4d7aaa0bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 20/51] fix: no undefined conversion of a negative column index

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 0479264..0c181e4 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -77,7 +77,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     }
     ind.resize(vec.nr());
     for (std::size_t j = 0; j < vec.nr(); j++) {
-      ind[j] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + j;
+      ind[j] = (d2i(*idxR) - 1) * vec.nr() + j;
     }
     mp.setMatrix(false, 0, 0);
     return;
@@ -175,7 +175,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
     ass(indexRow >= 1 && indexRow <= vec.nr(), "subscript out of bounds");
     indexRow--;
     ind.resize(1);
-    ind[0] = (static_cast<std::size_t>(*idxR) - 1) * vec.nr() + indexRow;
+    ind[0] = (d2i(*idxR) - 1) * vec.nr() + indexRow;
     return;
   } else if constexpr (is<R, int> && IsAV<C>) {
     using DataTypeC = ExtractDataType<C>::RetType;
-- 
2.43.0


From 14313327fae57985388c412a10b270cc76a6c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 21/51] fix: at checks the row and the column and not only the
 flattened index

---
 include/etr_bits/Subsetting/at.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/etr_bits/Subsetting/at.hpp b/include/etr_bits/Subsetting/at.hpp
index 80f2967..ad34927 100644
--- a/include/etr_bits/Subsetting/at.hpp
+++ b/include/etr_bits/Subsetting/at.hpp
@@ -61,6 +61,8 @@ inline auto &at(T &inp, R r, C c) {
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r >= 0 && r < inp.nr() && c >= 0 && c < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp.d.p[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
@@ -69,6 +71,8 @@ inline auto &at(T &inp, R r, C c) {
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r_ >= 0 && r_ < inp.nr() && c >= 0 && c < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp.d.p[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
@@ -77,6 +81,8 @@ inline auto &at(T &inp, R r, C c) {
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r >= 0 && r < inp.nr() && c_ >= 0 && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp.d.p[c_ * inp.nr() + r];
   } else {
     int r_ = d2i(r);
@@ -87,6 +93,8 @@ inline auto &at(T &inp, R r, C c) {
         "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r_ >= 0 && r_ < inp.nr() && c_ >= 0 && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp.d.p[c_ * inp.nr() + r_];
   }
 }
@@ -103,6 +111,8 @@ inline auto at(const T &inp, R r, C c) {
     ass((c * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r >= 0 && r < inp.nr() && c >= 0 && c < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp[c * inp.nr() + r];
   } else if constexpr (!std::is_integral_v<R> && std::is_integral_v<C>) {
     int r_ = d2i(r);
@@ -111,6 +121,8 @@ inline auto at(const T &inp, R r, C c) {
     ass((c * inp.nr() + r_) >= 0, "Error: out of boundaries --> value below 1");
     ass((c * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r_ >= 0 && r_ < inp.nr() && c >= 0 && c < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp[c * inp.nr() + r_];
   } else if constexpr (std::is_integral_v<R> && !std::is_integral_v<C>) {
     r--;
@@ -119,6 +131,8 @@ inline auto at(const T &inp, R r, C c) {
     ass((c_ * inp.nr() + r) >= 0, "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r >= 0 && r < inp.nr() && c_ >= 0 && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp[c_ * inp.nr() + r];
   } else {
     int r_ = d2i(r);
@@ -129,6 +143,8 @@ inline auto at(const T &inp, R r, C c) {
         "Error: out of boundaries --> value below 1");
     ass((c_ * inp.nr() + r_) < inp.size(),
         "Error: out of boundaries --> value beyond size of vector");
+    ass(r_ >= 0 && r_ < inp.nr() && c_ >= 0 && c_ < inp.nc(),
+        "Error: out of boundaries --> value beyond dimensions of matrix");
     return inp[c_ * inp.nr() + r_];
   }
 }
-- 
2.43.0


From f7994e372431e7ace6c9608991fed9fc8db2c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 22/51] fix: quotient rule divides by the squared denominator

---
 include/etr_bits/Core/Traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/Traits.hpp b/include/etr_bits/Core/Traits.hpp
index be1577d..3f869db 100644
--- a/include/etr_bits/Core/Traits.hpp
+++ b/include/etr_bits/Core/Traits.hpp
@@ -98,7 +98,7 @@ struct DivideDerivTrait {
   static inline std::common_type<L, R>::type fDeriv(L l, R r, LDeriv ld,
                                                     RDeriv rd) {
     return (ld * r - l * rd) /
-           std::pow(rd, 2); // TODO: add check for integral ...
+           std::pow(r, 2); // TODO: add check for integral ...
   }
 };
 
-- 
2.43.0


From ed1845486b74203e5a48d71fc9c620e2912a7a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 23/51] fix: chain rule for unary functions

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 74da964..54f30aa 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -74,11 +74,7 @@ template <typename Deriv, typename Trait, typename OpTrait> struct UnaryType {
     return Op::f(Deriv::getVal(av, idx));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    if constexpr (IsConstant<Deriv> || IsVariableType<Deriv>) {
-      return Op::fDeriv(Deriv::getVal(av, idx));
-    } else {
-      return Op::fDeriv(Deriv::getDeriv(av, idx));
-    }
+    return Op::fDeriv(Deriv::getVal(av, idx)) * Deriv::getDeriv(av, idx);
   }
 };
 
-- 
2.43.0


From d34004aaed2d70c7b982ed8d85784a826572f794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 24/51] fix: iterating over a subset visits the selected
 elements

---
 include/etr_bits/Core/Utils.hpp         | 9 +++++++++
 include/etr_bits/Vector/VectorClass.hpp | 5 +++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/Utils.hpp b/include/etr_bits/Core/Utils.hpp
index 5161f43..52e7001 100644
--- a/include/etr_bits/Core/Utils.hpp
+++ b/include/etr_bits/Core/Utils.hpp
@@ -51,6 +51,15 @@ template <typename T> struct It {
   void operator++() { ++p; }
 };
 
+// Iterates over the elements of a store which are selected by indices
+template <typename D> struct ItSubset {
+  D *store;
+  const std::size_t *idx;
+  decltype(auto) operator*() { return (*store)[*idx]; }
+  bool operator!=(const ItSubset &rhs) { return idx != rhs.idx; }
+  void operator++() { ++idx; }
+};
+
 inline void ass(bool inp, std::string message) {
 #ifdef STANDALONE_ETR
   if (!inp)
diff --git a/include/etr_bits/Vector/VectorClass.hpp b/include/etr_bits/Vector/VectorClass.hpp
index e7b6b42..093cc7a 100644
--- a/include/etr_bits/Vector/VectorClass.hpp
+++ b/include/etr_bits/Vector/VectorClass.hpp
@@ -60,14 +60,15 @@ template <typename T, typename R, typename Trait> struct Vec {
 
   auto begin() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p};
+      return ItSubset<std::remove_pointer_t<decltype(d.p)>>{d.p, d.ind.p};
     } else {
       return It<T>{d.p};
     }
   }
   auto end() const {
     if constexpr (isSubset::value) {
-      return It<T>{d.p->p + this->size()};
+      return ItSubset<std::remove_pointer_t<decltype(d.p)>>{
+          d.p, d.ind.p + this->size()};
     } else {
       return It<T>{d.p + this->size()};
     }
-- 
2.43.0


From 697e35b9bed45c43311d259d00268837f83dd6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 25/51] fix: mathematical functions accept scalars

---
 include/etr_bits/UnaryCalculations.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index a675607..98ac105 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -107,7 +107,7 @@ template <typename T> auto sinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinus(const T &obj) -> BaseType {
-  return Sinus(obj);
+  return SinusTrait::f(obj);
 }
 
 template <typename T> auto sinush(const T &obj) {
@@ -125,7 +125,7 @@ template <typename T> auto sinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sinush(const T &obj) -> BaseType {
-  return SinusH(obj);
+  return SinusHTrait::f(obj);
 }
 
 template <typename T> auto asinus(const T &obj) {
@@ -143,7 +143,7 @@ template <typename T> auto asinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto asinus(const T &obj) -> BaseType {
-  return ASinus(obj);
+  return ASinusTrait::f(obj);
 }
 
 template <typename T> auto cosinus(const T &obj) {
@@ -161,7 +161,7 @@ template <typename T> auto cosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinus(const T &obj) -> BaseType {
-  return Cosinus(obj);
+  return CosinusTrait::f(obj);
 }
 
 template <typename T> auto cosinush(const T &obj) {
@@ -179,7 +179,7 @@ template <typename T> auto cosinush(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto cosinush(const T &obj) -> BaseType {
-  return CosinusH(obj);
+  return CosinusHTrait::f(obj);
 }
 
 template <typename T> auto acosinus(const T &obj) {
@@ -197,7 +197,7 @@ template <typename T> auto acosinus(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto acosinus(const T &obj) -> BaseType {
-  return ACosinus(obj);
+  return ACosinusTrait::f(obj);
 }
 
 template <typename T> auto tangens(const T &obj) {
@@ -215,7 +215,7 @@ template <typename T> auto tangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangens(const T &obj) -> BaseType {
-  return Tangens(obj);
+  return TangensTrait::f(obj);
 }
 
 template <typename T> auto tangensh(const T &obj) {
@@ -233,7 +233,7 @@ template <typename T> auto tangensh(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto tangensh(const T &obj) -> BaseType {
-  return TangensH(obj);
+  return TangensHTrait::f(obj);
 }
 
 template <typename T> auto atangens(const T &obj) {
@@ -251,7 +251,7 @@ template <typename T> auto atangens(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto atangens(const T &obj) -> BaseType {
-  return ATangens(obj);
+  return ATangensTrait::f(obj);
 }
 
 template <typename T> auto ln(const T &obj) {
@@ -288,7 +288,7 @@ template <typename T> auto sqroot(const T &obj) {
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto sqroot(const T &obj) -> BaseType {
-  return SquareRoot(obj);
+  return SquareRootTrait::f(obj);
 }
 
 template <typename T>
@@ -307,7 +307,7 @@ auto exp(const T &obj) { // issue: updae this in the documentation
 template <typename T>
   requires std::is_same_v<T, BaseType>
 auto exp(const T &obj) -> BaseType {
-  return Exp(obj);
+  return ExpTrait::f(obj);
 }
 
 } // namespace etr
-- 
2.43.0


From 3cc1f32799f32e23db90db2eace90d510405fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 26/51] fix: realloc to a smaller size does not write behind
 the new memory

---
 include/etr_bits/Core/BaseStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 6352461..948f1be 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -319,7 +319,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
     T *temp;
     capacity = static_cast<int>(new_size * 1.15);
     temp = new T[capacity];
-    for (std::size_t i = 0; i < sz; i++)
+    for (std::size_t i = 0; i < sz && i < new_size; i++)
       temp[i] = p[i];
 
     for (std::size_t i = sz; i < new_size; i++)
-- 
2.43.0


From 3eb36742ef793da681d76a839d53b58a18b26f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 27/51] fix: copy assignment of a store takes over length and
 dimensions

---
 include/etr_bits/Core/BaseStore.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 948f1be..41d5712 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -140,6 +140,8 @@ template <typename T, typename BaseTrait> struct BaseStore {
         resize(other.size());
       }
     }
+    this->sz = other.size();
+    this->mp.setMatrix(other.mp);
     for (std::size_t i = 0; i < this->sz; i++) {
       p[i] = other[i];
     }
-- 
2.43.0


From 8b183c8f3d192ee28b07fef08f91afb012076c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 28/51] fix: comparisons of vectors are logical, also as an
 index

---
 include/etr_bits/BinaryCalculations.hpp | 78 ++++++-------------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index b401e34..0864bf4 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -270,20 +270,13 @@ template <typename L, typename R> auto operator==(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, EqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, EqualTrait>>(
         BinaryOperation<decltype(l.d), R, EqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), EqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), EqualTrait>>(
         BinaryOperation<L, decltype(r.d), EqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), EqualTrait>(l.d, r.d));
   } else {
     ass(false, "This case should not be reached. Contact author");
@@ -294,20 +287,13 @@ template <typename L, typename R> auto operator!=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, UnEqualTrait>>(
         BinaryOperation<decltype(l.d), R, UnEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), UnEqualTrait>>(
         BinaryOperation<L, decltype(r.d), UnEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), UnEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         UnEqualTrait>(l.d, r.d));
@@ -320,20 +306,13 @@ template <typename L, typename R> auto operator>(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerTrait>>(
         BinaryOperation<decltype(l.d), R, LargerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerTrait>>(
         BinaryOperation<L, decltype(r.d), LargerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         LargerTrait>(l.d, r.d));
@@ -346,20 +325,13 @@ template <typename L, typename R> auto operator>=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, LargerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), LargerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), LargerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         LargerEqualTrait>(l.d, r.d));
@@ -372,20 +344,13 @@ template <typename L, typename R> auto operator<(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         SmallerTrait>(l.d, r.d));
@@ -398,20 +363,13 @@ template <typename L, typename R> auto operator<=(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), R, SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), R, SmallerEqualTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<L, decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<L, decltype(r.d), SmallerEqualTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
-    return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
-        BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
+    return Vec<bool, BinaryOperation<decltype(l.d), decltype(r.d), SmallerEqualTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d),
 
                         SmallerEqualTrait>(l.d, r.d));
-- 
2.43.0


From c0f2412e89e19470d2ff1186d3908ce90c7718bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 29/51] fix: no undefined conversion of a negative column given
 by an expression

---
 include/etr_bits/Subsetting/MatrixSubsetting.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/etr_bits/Subsetting/MatrixSubsetting.hpp b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
index 0c181e4..6f15111 100644
--- a/include/etr_bits/Subsetting/MatrixSubsetting.hpp
+++ b/include/etr_bits/Subsetting/MatrixSubsetting.hpp
@@ -140,7 +140,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(vec.nr() * idxR->size());
       for (std::size_t j = 0; j < idxR->size(); j++) {
         for (std::size_t i = 0; i < vec.nr(); i++) {
-          ind[counter] = ((*idxR)[j] - 1) * vec.nr() + i;
+          ind[counter] = (d2i((*idxR)[j]) - 1) * vec.nr() + i;
           counter++;
         }
       }
@@ -213,7 +213,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = static_cast<std::size_t>(*idxL);
@@ -291,7 +291,7 @@ inline void calcIndMatrix(T &vec, I &ind, MatrixParameter &mp, const R *idxL,
       ind.resize(idxR->size());
       indexRow--;
       for (std::size_t j = 0; j < idxR->size(); j++)
-        ind[j] = ((*idxR)[j] - 1) * vec.nr() + indexRow;
+        ind[j] = (d2i((*idxR)[j]) - 1) * vec.nr() + indexRow;
       mp.setMatrix(false, 0, 0);
     } else if constexpr (is<DataTypeC, double>) {
       std::size_t indexRow = convertSize(*idxL);
-- 
2.43.0


From 46f14c629f0236b65e52e93da501cf76dc642c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 30/51] fix: coca accepts subsets and expressions

---
 include/etr_bits/Coca.hpp | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/include/etr_bits/Coca.hpp b/include/etr_bits/Coca.hpp
index 5acbcc0..66b7c90 100644
--- a/include/etr_bits/Coca.hpp
+++ b/include/etr_bits/Coca.hpp
@@ -16,8 +16,7 @@ inline auto determine_type(const auto &rest) {
   if constexpr (std::is_arithmetic_v<restType>) {
     return typename std::remove_reference<decltype(rest)>::type{};
   } else {
-    using tD = ExtractedTypeD<restType>;
-    return typename ExtractDataType<tD>::RetType{};
+    return typename ExtractDataType<restType>::RetType{};
   }
 };
 
@@ -29,20 +28,16 @@ inline auto determine_type(const auto &first, const auto &rest) {
     return typename std::common_type<firstType, restType>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD>::RetType;
+    using firstInner = ExtractDataType<firstType>::RetType;
     return typename std::common_type<firstInner, restType>::type{};
   } else if constexpr (std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD>::RetType;
+    using restInner = ExtractDataType<restType>::RetType;
     return typename std::common_type<firstType, restInner>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD1 = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD1>::RetType;
-    using tD2 = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD2>::RetType;
+    using firstInner = ExtractDataType<firstType>::RetType;
+    using restInner = ExtractDataType<restType>::RetType;
     return typename std::common_type<firstInner, restInner>::type{};
   }
 }
@@ -55,20 +50,16 @@ inline auto determine_type(const auto &first, const auto &...rest) {
     return typename std::common_type<firstType, restType>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD>::RetType;
+    using firstInner = ExtractDataType<firstType>::RetType;
     return typename std::common_type<firstInner, restType>::type{};
   } else if constexpr (std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD>::RetType;
+    using restInner = ExtractDataType<restType>::RetType;
     return typename std::common_type<firstType, restInner>::type{};
   } else if constexpr (!std::is_arithmetic_v<firstType> &&
                        !std::is_arithmetic_v<restType>) {
-    using tD1 = ExtractedTypeD<firstType>;
-    using firstInner = ExtractDataType<tD1>::RetType;
-    using tD2 = ExtractedTypeD<restType>;
-    using restInner = ExtractDataType<tD2>::RetType;
+    using firstInner = ExtractDataType<firstType>::RetType;
+    using restInner = ExtractDataType<restType>::RetType;
     return typename std::common_type<firstInner, restInner>::type{};
   }
 }
@@ -109,18 +100,15 @@ template <typename... Args> inline auto coca(Args &&...args) {
           index++;
         } else {
           using tD = std::remove_reference_t<decltype(arg)>;
-          using tD2 = ExtractedTypeD<tD>;
-          using InnerType = typename ExtractDataType<tD2>::RetType;
-          // using tD = ExtractedTypeD<decltype(arg)>;
-          // using InnerType = typename ExtractDataType<tD>::RetType;
+          using InnerType = typename ExtractDataType<tD>::RetType;
           const auto &const_arg = arg;
           if constexpr (std::is_same_v<InnerType, cType>) {
             for (int i = 0; i < arg.size(); i++) {
-              ret[index + i] = arg[i]; // const_arg[i];
+              ret[index + i] = const_arg[i];
             }
           } else {
             for (int i = 0; i < arg.size(); i++) {
-              ret[index + i] = static_cast<cType>(arg[i]);
+              ret[index + i] = static_cast<cType>(const_arg[i]);
             }
           }
           index += arg.size();
@@ -160,8 +148,7 @@ inline auto coca(AV &av, Args &&...args) {
           index++;
         } else {
           using tD = std::remove_reference_t<decltype(arg)>;
-          using tD2 = ExtractedTypeD<tD>;
-          using InnerType = typename ExtractDataType<tD2>::RetType;
+          using InnerType = typename ExtractDataType<tD>::RetType;
           if constexpr (std::is_same_v<InnerType, cType>) {
             for (int i = 0; i < arg.size(); i++) {
               av.varConstants[Idx][index + i] = arg[i];
-- 
2.43.0


From b0ad8a1ca695dd39bf6a93b3ffc34060a1d93d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 31/51] fix: colon fills exactly the elements it allocates

---
 include/etr_bits/Allocation/Colon.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 29827ad..008dedb 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -25,21 +25,15 @@ template <typename T> inline auto colonInternal(T start, T end) {
   if (start < end) {
     std::size_t length = convertSize(end - start + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (start <= end) {
-      ret[counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start + static_cast<T>(i);
     }
     return ret;
   } else {
     std::size_t length = convertSize(start - end + 1);
     Vec<T, Buffer<T, RBufTrait>, RVecTrait> ret(SI{length});
-    std::size_t counter = 0;
-    while (end <= start) {
-      ret[counter] = start;
-      start--;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      ret[i] = start - static_cast<T>(i);
     }
     return ret;
   }
-- 
2.43.0


From 5e4908dbefe82bc9711fea97a2055d6990510298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 32/51] fix: derivative of a variable assigned an expression
 that contains itself

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 3114eaa..e490de6 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -204,9 +204,15 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
       for (std::size_t i = 0; i < otherVec.size(); i++) {
         temp[i] = otherVec.d[i];
       }
+      // NOTE: the variable itself can be part of the expression
+      Buffer<BaseType> tempDeriv;
+      tempDeriv.resize(otherVec.size());
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        tempDeriv[i] = res.getDeriv(d.AllVarsRef, i);
+      }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      for (std::size_t i = 0; i < res.getSize(d.AllVarsRef); i++) {
-        d.setDeriv(d.AllVarsRef, i, res.getDeriv(d.AllVarsRef, i));
+      for (std::size_t i = 0; i < otherVec.size(); i++) {
+        d.setDeriv(d.AllVarsRef, i, tempDeriv[i]);
       }
 
       d.resize(otherVec.size());
-- 
2.43.0


From 51367509bdbccbc403c83b959dd28a53a14245d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 33/51] fix: derivatives of nested recycled expressions use the
 elements the values use

---
 include/etr_bits/Derivatives/DerivTypes.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/etr_bits/Derivatives/DerivTypes.hpp b/include/etr_bits/Derivatives/DerivTypes.hpp
index 54f30aa..eb0b953 100644
--- a/include/etr_bits/Derivatives/DerivTypes.hpp
+++ b/include/etr_bits/Derivatives/DerivTypes.hpp
@@ -23,12 +23,15 @@ struct QuarternyType {
   }
 
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)),
+                 RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
 
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx),
-                      LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    const std::size_t idxL = idx % LDeriv::getSize(av);
+    const std::size_t idxR = idx % RDeriv::getSize(av);
+    return Op::fDeriv(LDeriv::getVal(av, idxL), RDeriv::getVal(av, idxR),
+                      LDeriv::getDeriv(av, idxL), RDeriv::getDeriv(av, idxR));
   }
 };
 
@@ -50,10 +53,12 @@ struct BinaryType {
                                                      : RDeriv::getSize(av);
   }
   template <typename AV> static auto getVal(AV &av, std::size_t idx) {
-    return Op::f(LDeriv::getVal(av, idx), RDeriv::getVal(av, idx));
+    return Op::f(LDeriv::getVal(av, idx % LDeriv::getSize(av)),
+                 RDeriv::getVal(av, idx % RDeriv::getSize(av)));
   }
   template <typename AV> static auto getDeriv(AV &av, std::size_t idx) {
-    return Op::fDeriv(LDeriv::getDeriv(av, idx), RDeriv::getDeriv(av, idx));
+    return Op::fDeriv(LDeriv::getDeriv(av, idx % LDeriv::getSize(av)),
+                      RDeriv::getDeriv(av, idx % RDeriv::getSize(av)));
   }
 };
 
-- 
2.43.0


From 46e208c169a80301e95edb9b56712f8267dbac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 34/51] fix: print writes logical matrices as true and false

---
 include/etr_bits/Printing.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 4064028..61b92f0 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -46,7 +46,7 @@ inline void print(const Vec<L, R> &inp) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -63,7 +63,7 @@ inline void print(const etr::Vec<T, Op, Trait> &inp) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -81,7 +81,7 @@ print(const T &inp) { // issue: just a quick fix for printing unary expression
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp[j * inp.nr() + i] << "\t";
+        PRINT_STREAM << std::boolalpha << inp[j * inp.nr() + i] << "\t";
       }
       PRINT_STREAM << std::endl;
     }
@@ -97,7 +97,8 @@ inline void print(const etr::Vec<T, Op, Trait> &inp, AV &av) {
   } else {
     for (std::size_t i = 0; i < inp.nr(); i++) {
       for (std::size_t j = 0; j < inp.nc(); j++) {
-        PRINT_STREAM << inp.d.getVal(av, j * inp.nr() + i) << "\t";
+        PRINT_STREAM << std::boolalpha
+                     << inp.d.getVal(av, j * inp.nr() + i) << "\t";
       }
       PRINT_STREAM << std::endl;
     }
-- 
2.43.0


From d4722a3051b8262c8e60186a992072d963473614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 35/51] fix: operations with an empty operand divided by zero

---
 include/etr_bits/BinaryCalculations.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 0864bf4..1dca70b 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -115,6 +115,8 @@ struct BinaryOperation {
     } else if constexpr (isDoubleL && !isDoubleR) {
       return r.size();
     } else if constexpr (!isDoubleL && !isDoubleR) {
+      if (l.size() == 0 || r.size() == 0) // otherwise there is nothing to recycle
+        return 0;
       return l.size() > r.size() ? l.size() : r.size();
     }
   }
-- 
2.43.0


From 8b89e7bde3d982921447972023f175c06050dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 36/51] fix: operations on matrices of different shapes gave a
 matrix whose rows and columns do not match its length

---
 include/etr_bits/BinaryCalculations.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 1dca70b..59c52cb 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -88,7 +88,14 @@ struct BinaryOperation {
   BinaryOperation(const BinaryOperation &other) : l(other.l), r(other.r) {}
   BinaryOperation(const BinaryOperation &&other)
       : l(std::move(other.l)), r(std::move(other.r)) {}
-  BinaryOperation(const L &l_, const R &r_) : l(l_), r(r_) {}
+  BinaryOperation(const L &l_, const R &r_) : l(l_), r(r_) {
+    if constexpr (!std::is_arithmetic_v<L> && !std::is_arithmetic_v<R>) {
+      if (l.im() && r.im())
+        ass(l.nr() == r.nr() && l.nc() == r.nc(), "non-conformable arrays");
+      if (l.im() || r.im())
+        ass(size() == nr() * nc(), "dims do not match the length of object");
+    }
+  }
   template <typename LType, typename RType, typename TraitOther>
   BinaryOperation(const BinaryOperation<LType, RType, TraitOther>
                       &other) // TODO: needs move constructor
-- 
2.43.0


From 17694d294479724be8aa97109b06d97255354e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 37/51] fix: quotients and functions of integer vectors have
 numeric elements

---
 include/etr_bits/BinaryCalculations.hpp | 11 +++--------
 include/etr_bits/UnaryCalculations.hpp  | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/include/etr_bits/BinaryCalculations.hpp b/include/etr_bits/BinaryCalculations.hpp
index 59c52cb..b3060e0 100644
--- a/include/etr_bits/BinaryCalculations.hpp
+++ b/include/etr_bits/BinaryCalculations.hpp
@@ -231,19 +231,14 @@ template <typename L, typename R> auto operator/(const L &l, const R &r) {
   constexpr bool isDoubleL = std::is_arithmetic_v<L>;
   constexpr bool isDoubleR = std::is_arithmetic_v<R>;
   if constexpr (!isDoubleL && isDoubleR) {
-    return Vec<typename std::common_type<typename ExtractDataType<L>::RetType,
-                                         R>::type,
-               BinaryOperation<decltype(l.d), R, DivideTrait>>(
+    return Vec<BaseType, BinaryOperation<decltype(l.d), R, DivideTrait>>(
         BinaryOperation<decltype(l.d), R, DivideTrait>(l.d, r));
   } else if constexpr (isDoubleL && !isDoubleR) {
-    return Vec<typename std::common_type<
-                   L, typename ExtractDataType<R>::RetType>::type,
-               BinaryOperation<L, decltype(r.d), DivideTrait>>(
+    return Vec<BaseType, BinaryOperation<L, decltype(r.d), DivideTrait>>(
         BinaryOperation<L, decltype(r.d), DivideTrait>(l, r.d));
   } else if constexpr (!isDoubleL && !isDoubleR) {
     return Vec<
-        typename std::common_type<typename ExtractDataType<L>::RetType,
-                                  typename ExtractDataType<R>::RetType>::type,
+        BaseType,
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>>(
         BinaryOperation<decltype(l.d), decltype(r.d), DivideTrait>(l.d, r.d));
   } else {
diff --git a/include/etr_bits/UnaryCalculations.hpp b/include/etr_bits/UnaryCalculations.hpp
index 98ac105..78fd6a5 100644
--- a/include/etr_bits/UnaryCalculations.hpp
+++ b/include/etr_bits/UnaryCalculations.hpp
@@ -95,7 +95,7 @@ template <typename T> auto operator-(const T &obj) {
 template <typename T> auto sinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -113,7 +113,7 @@ auto sinus(const T &obj) -> BaseType {
 template <typename T> auto sinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -131,7 +131,7 @@ auto sinush(const T &obj) -> BaseType {
 template <typename T> auto asinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ASinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ASinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -149,7 +149,7 @@ auto asinus(const T &obj) -> BaseType {
 template <typename T> auto cosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -167,7 +167,7 @@ auto cosinus(const T &obj) -> BaseType {
 template <typename T> auto cosinush(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), CosinusHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), CosinusHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -185,7 +185,7 @@ auto cosinush(const T &obj) -> BaseType {
 template <typename T> auto acosinus(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ACosinusTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ACosinusTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -203,7 +203,7 @@ auto acosinus(const T &obj) -> BaseType {
 template <typename T> auto tangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -221,7 +221,7 @@ auto tangens(const T &obj) -> BaseType {
 template <typename T> auto tangensh(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), TangensHTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), TangensHTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -239,7 +239,7 @@ auto tangensh(const T &obj) -> BaseType {
 template <typename T> auto atangens(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ATangensTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ATangensTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -257,7 +257,7 @@ auto atangens(const T &obj) -> BaseType {
 template <typename T> auto ln(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), LogTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), LogTrait>(obj.d));
   } else if constexpr (isDouble) { // issue: this should be never be used. Also
@@ -276,7 +276,7 @@ auto ln(const T &obj) -> BaseType {
 template <typename T> auto sqroot(const T &obj) {
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), SquareRootTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), SquareRootTrait>(obj.d));
   } else if constexpr (isDouble) {
@@ -295,7 +295,7 @@ template <typename T>
 auto exp(const T &obj) { // issue: updae this in the documentation
   constexpr bool isDouble = std::is_arithmetic_v<T>;
   if constexpr (!isDouble) {
-    return Vec<typename ExtractDataType<T>::RetType,
+    return Vec<BaseType,
                UnaryOperation<decltype(obj.d), ExpTrait>, UnaryTrait>(
         UnaryOperation<decltype(obj.d), ExpTrait>(obj.d));
   } else if constexpr (isDouble) {
-- 
2.43.0


From 22e5e231fee1c9a5c802d8bf36e64862c6bae3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 38/51] fix: vector_*<Idx>(av, n) returns zeros when the slot
 held older constants

---
 include/etr_bits/Allocation/Vector.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/etr_bits/Allocation/Vector.hpp b/include/etr_bits/Allocation/Vector.hpp
index 841cd45..afb7b3b 100644
--- a/include/etr_bits/Allocation/Vector.hpp
+++ b/include/etr_bits/Allocation/Vector.hpp
@@ -104,20 +104,24 @@ inline auto vector_integer(AV &av, const T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -130,20 +134,24 @@ inline auto vector_integer(AV &av, T &inp) {
   using VecType = int;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -156,20 +164,24 @@ inline auto vector_logical(AV &av, const T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -182,20 +194,24 @@ inline auto vector_logical(AV &av, T &inp) {
   using VecType = bool;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -208,20 +224,24 @@ inline auto vector_numeric(AV &av, const T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
@@ -234,20 +254,24 @@ inline auto vector_numeric(AV &av, T &inp) {
   using VecType = BaseType;
   if constexpr (std::is_same_v<T, std::size_t>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_floating_point_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (std::is_integral_v<T>) {
     av.varConstants[Idx].resize(convertSize(inp));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else if constexpr (IsVecRorCalc<T> || IsVec<T>) {
     ass(inp.size() == 1, "invalid length argument");
     av.varConstants[Idx].resize(convertSize(inp[0]));
+    av.varConstants[Idx].fill(0);
     Vec<VecType, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
     return ret;
   } else {
-- 
2.43.0


From 19dfe8261214a436a3f6925b784b29f4ce4563b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:33 +0000
Subject: [PATCH 39/51] fix: colon<Idx>(av, a, b) computes every element from
 the start, so int limits and rounding cannot overrun

---
 include/etr_bits/Allocation/Colon.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/etr_bits/Allocation/Colon.hpp b/include/etr_bits/Allocation/Colon.hpp
index 008dedb..a8e7f98 100644
--- a/include/etr_bits/Allocation/Colon.hpp
+++ b/include/etr_bits/Allocation/Colon.hpp
@@ -246,22 +246,16 @@ inline auto colonInternalDerivs(AV &av, T start, T end) {
     std::size_t length = convertSize(end - start + 1);
     av.varConstants[Idx].resize(convertSize(length));
     Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-    std::size_t counter = 0;
-    while (start <= end) {
-      av.varConstants[Idx][counter] = start;
-      start++;
-      counter++;
+    for (std::size_t i = 0; i < length; i++) {
+      av.varConstants[Idx][i] = start + static_cast<T>(i);
     }
     return ret;
   }
   std::size_t length = convertSize(start - end + 1);
   av.varConstants[Idx].resize(convertSize(length));
   Vec<T, VarPointer<decltype(av), Idx, -1>, ConstantTypeTrait> ret(av);
-  std::size_t counter = 0;
-  while (end <= start) {
-    av.varConstants[Idx][counter] = start;
-    start--;
-    counter++;
+  for (std::size_t i = 0; i < length; i++) {
+    av.varConstants[Idx][i] = start - static_cast<T>(i);
   }
   return ret;
 }
-- 
2.43.0


From ad4b3f61f3f9c7b68058e5be3be824253eb27dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 40/51] fix: store assigned derivative expressions in the
 target variable of its own kind

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index e490de6..3ead04b 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -182,7 +182,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
     if constexpr (IsConstant<decltype(otherVec)>) {
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = otherVec.d[i];
+        d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
       if (d.AllVarsRef.IndepVarIdx == d.I) {
@@ -217,7 +217,7 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
 
       d.resize(otherVec.size());
       for (std::size_t i = 0; i < otherVec.size(); i++) {
-        d.AllVarsRef.varBuffer[d.I][i] = temp[i];
+        d.setVal(d.AllVarsRef, i, temp[i]);
       }
 
     }
-- 
2.43.0


From af28faf9cb0f0ee7253ef2a76f513b0636e942b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 41/51] fix: only the variable of the chosen kind is the
 independent one

---
 include/etr_bits/Derivatives/VarPointer.hpp    | 9 ++++++---
 include/etr_bits/Vector/AssignmentOperator.hpp | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/etr_bits/Derivatives/VarPointer.hpp b/include/etr_bits/Derivatives/VarPointer.hpp
index 96fc23e..c76c147 100644
--- a/include/etr_bits/Derivatives/VarPointer.hpp
+++ b/include/etr_bits/Derivatives/VarPointer.hpp
@@ -151,7 +151,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 0) {
       if (av.varBufferDerivs[Idx].size() != av.varBuffer[Idx].size()) {
         av.varBufferDerivs[Idx].resize(av.varBuffer[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBufferDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -160,7 +161,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 1) {
       if (av.varBorrowDerivs[Idx].size() != av.varBorrow[Idx].size()) {
         av.varBorrowDerivs[Idx].resize(av.varBorrow[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
@@ -169,7 +171,8 @@ template <typename T, int Idx, int TypeIdx, typename Trait> struct VarPointer {
     } else if constexpr (TypeIdx == 2) {
       if (av.varBorrowSEXPDerivs[Idx].size() != av.varBorrowSEXP[Idx].size()) {
         av.varBorrowSEXPDerivs[Idx].resize(av.varBorrowSEXP[Idx].size());
-        if ((Idx == av.IndepVarIdx) && !av.DerivInit) {
+        if ((Idx == av.IndepVarIdx) && (TypeIdx == av.IndepVarTypeIdx) &&
+            !av.DerivInit) {
           av.varBorrowSEXPDerivs[Idx].fill(1.0);
           av.DerivInit = true;
         }
diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 3ead04b..207fcc6 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -185,7 +185,8 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
         d.setVal(d.AllVarsRef, i, otherVec.d[i]);
       }
       d.AllVarsRef.resizeDerivs(R::I, R::TIdx, otherVec.size());
-      if (d.AllVarsRef.IndepVarIdx == d.I) {
+      if (d.AllVarsRef.IndepVarIdx == d.I &&
+          d.AllVarsRef.IndepVarTypeIdx == R::TIdx) {
         for (std::size_t i = 0; i < otherVec.size(); i++) {
           d.setDeriv(d.AllVarsRef, i, 1.0);
         }
-- 
2.43.0


From 4d1790077bf3c8ffca042544744dc654f6cbf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 42/51] fix: initBorrow binds the variables to the borrowed
 memory

---
 include/etr_bits/Derivatives/AllVars.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Derivatives/AllVars.hpp b/include/etr_bits/Derivatives/AllVars.hpp
index 8a0986f..a3a4802 100644
--- a/include/etr_bits/Derivatives/AllVars.hpp
+++ b/include/etr_bits/Derivatives/AllVars.hpp
@@ -50,7 +50,13 @@ struct AllVars {
     int idx = 0;
     LoopVariadicT(
         [&](auto arg) {
-          this->varBorrow[idx] = arg;
+          if constexpr (std::is_same_v<decltype(arg),
+                                       Vec<BaseType, Borrow<BaseType>>>) {
+            // NOTE: point to the same memory as the argument
+            this->varBorrow[idx].d = arg.d;
+          } else {
+            this->varBorrow[idx] = arg;
+          }
           idx++;
         },
         args...);
-- 
2.43.0


From 31354cb638ec9f3be77fa5d1daf8c1dcdcd3e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 43/51] fix: print to Rcpp::Rcout in R, where no PRINT_STREAM
 was defined

---
 include/etr_bits/Printing.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/etr_bits/Printing.hpp b/include/etr_bits/Printing.hpp
index 61b92f0..a15e344 100644
--- a/include/etr_bits/Printing.hpp
+++ b/include/etr_bits/Printing.hpp
@@ -10,8 +10,7 @@ namespace etr {
 #ifdef STANDALONE_ETR
 #define PRINT_STREAM std::cout
 #else
-// TODO: find appropriate R variante for printing
-#define PRINT_STREAM PRINT_STREAM
+#define PRINT_STREAM Rcpp::Rcout
 #endif
 
 inline void print() { PRINT_STREAM << std::endl; }
-- 
2.43.0


From e4b85065595285788852b72943fab30671af7991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 44/51] fix: the R function is called Rf_isLogical

---
 include/etr_bits/Core/BorrowSEXP.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 7aa3d8c..202a5a3 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -58,7 +58,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       todelete = false;
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_IsLogical(inp), "R object is not of type numeric");
+      ass(Rf_isLogical(inp), "R object is not of type numeric");
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
@@ -119,7 +119,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       todelete = false;
       allocated = true;
     } else if constexpr (is<RetType, bool>) {
-      ass(Rf_IsLogical(inp), "R object is not of type numeric");
+      ass(Rf_isLogical(inp), "R object is not of type numeric");
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-- 
2.43.0


From 9831d4b153e908ea6ce2b3ee5d8a74611fadb9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:09 +0000
Subject: [PATCH 45/51] fix: ask R whether an object is a matrix without the
 comparison of vectors

---
 include/etr_bits/Core/BaseStore.hpp  | 12 ++++++------
 include/etr_bits/Core/BorrowSEXP.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index 41d5712..a14302c 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -66,7 +66,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -78,7 +78,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -90,7 +90,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -201,7 +201,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -213,7 +213,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
@@ -225,7 +225,7 @@ template <typename T, typename BaseTrait> struct BaseStore {
       sz = static_cast<std::size_t>(Rf_length(s));
       capacity = static_cast<std::size_t>(sz);
       p = new T[capacity];
-      if (Rf_isMatrix(s) == true) {
+      if (Rf_isMatrix(s)) {
         mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
       }
       for (int i = 0; i < sz; i++) {
diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index 202a5a3..e8bbc67 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -42,7 +42,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = REAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -52,7 +52,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = INTEGER(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -62,7 +62,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -103,7 +103,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = REAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -113,7 +113,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = INTEGER(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
@@ -123,7 +123,7 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
       p = LOGICAL(inp);
       sz = Rf_length(inp);
       capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp) == true) {
+      if (Rf_isMatrix(inp)) {
         mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
       }
       todelete = false;
-- 
2.43.0


From 445791b0ff738228b26de346d15d79b08e5faac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 46/51] fix: distribution functions return as many values as
 the longest argument has

---
 include/etr_bits/Distri.hpp | 70 ++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 570059a..5f3ac67 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -25,12 +25,12 @@ inline Vec<BaseType> dunif_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -65,12 +65,12 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -106,12 +106,12 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -149,12 +149,12 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -193,12 +193,12 @@ inline Vec<BaseType> dnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -222,7 +222,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -234,12 +234,12 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -275,12 +275,12 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -318,12 +318,12 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -362,12 +362,12 @@ inline Vec<BaseType> dlnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -391,7 +391,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -403,12 +403,12 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{min_.size(), max_.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -444,12 +444,12 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -488,12 +488,12 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{min_.size(), max_.size(), lower.size(),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -537,12 +537,12 @@ inline Vec<BaseType> dgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -572,7 +572,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1)) {
     std::size_t size = static_cast<std::size_t>(x[0]);
-    Vec<BaseType> res(size);
+    Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
       m.lock();
       GetRNGstate();
@@ -584,12 +584,12 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   } else {
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size())};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -629,12 +629,12 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lower.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -676,12 +676,12 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
     std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size()),
                               lower.size(), lg.size()};
     std::size_t max = x.size();
-    for (std::size_t i = 1; i < sizes.size(); i++) {
+    for (std::size_t i = 0; i < sizes.size(); i++) {
       if (sizes[i] > max) {
         max = sizes[i];
       }
     }
-    Vec<BaseType> res(max);
+    Vec<BaseType> res(SI{max});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-- 
2.43.0


From 5df9876812e906e2b98ed200d32f11dd855687d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 47/51] fix: p and q functions recycle lower like the other
 arguments

---
 include/etr_bits/Distri.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 5f3ac67..9c694dd 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -94,7 +94,7 @@ inline Vec<BaseType> punif_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -137,7 +137,7 @@ inline Vec<BaseType> qunif_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -263,7 +263,7 @@ inline Vec<BaseType> pnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -306,7 +306,7 @@ inline Vec<BaseType> qnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -432,7 +432,7 @@ inline Vec<BaseType> plnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -476,7 +476,7 @@ inline Vec<BaseType> qlnorm_etr(const Vec<BaseType> &x,
   std::mutex m;
 
   if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -617,7 +617,7 @@ inline Vec<BaseType> pgamma_etr(const Vec<BaseType> &x,
   }
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
@@ -664,7 +664,7 @@ inline Vec<BaseType> qgamma_etr(const Vec<BaseType> &x,
   }
   // const Vec<BaseType> &scale = 1 / rate;
   if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1) &&
-      (lg.size() == 1)) {
+      (lower.size() == 1) && (lg.size() == 1)) {
     Vec<BaseType> ret(1);
     m.lock();
     GetRNGstate();
-- 
2.43.0


From 37b9683fe4443754d3885a0e185c0eee71f3ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:00 +0000
Subject: [PATCH 48/51] fix: draw as many random numbers as asked for when
 parameters are recycled

---
 include/etr_bits/Distri.hpp | 48 ++++++++++---------------------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/include/etr_bits/Distri.hpp b/include/etr_bits/Distri.hpp
index 9c694dd..76771b9 100644
--- a/include/etr_bits/Distri.hpp
+++ b/include/etr_bits/Distri.hpp
@@ -51,7 +51,8 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
                                const Vec<BaseType> &max_) {
   std::mutex m;
 
-  if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
+  if (x.size() == 1) {
+    ass(x[0] >= 1, "the number of random numbers has to be at least 1");
     Vec<BaseType> res(SI{static_cast<int>(x[0])});
     std::size_t size = static_cast<std::size_t>(x[0]);
     for (std::size_t i = 0; i < size; i++) {
@@ -63,14 +64,7 @@ inline Vec<BaseType> runif_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{min_.size(), max_.size()};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -220,7 +214,8 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
                                const Vec<BaseType> &max_) {
   std::mutex m;
 
-  if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
+  if (x.size() == 1) {
+    ass(x[0] >= 1, "the number of random numbers has to be at least 1");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -232,14 +227,7 @@ inline Vec<BaseType> rnorm_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{min_.size(), max_.size()};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -389,7 +377,8 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
                                 const Vec<BaseType> &max_) {
   std::mutex m;
 
-  if ((x.size() == 1) && (min_.size() == 1) && (max_.size() == 1)) {
+  if (x.size() == 1) {
+    ass(x[0] >= 1, "the number of random numbers has to be at least 1");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -401,14 +390,7 @@ inline Vec<BaseType> rlnorm_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{min_.size(), max_.size()};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
@@ -570,7 +552,8 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
   }
 
   // const Vec<BaseType> &scale = 1 / rate;
-  if ((x.size() == 1) && (shape.size() == 1) && (scale.size() == 1)) {
+  if (x.size() == 1) {
+    ass(x[0] >= 1, "the number of random numbers has to be at least 1");
     std::size_t size = static_cast<std::size_t>(x[0]);
     Vec<BaseType> res(SI{size});
     for (std::size_t i = 0; i < size; i++) {
@@ -582,14 +565,7 @@ inline Vec<BaseType> rgamma_etr(const Vec<BaseType> &x,
     }
     return res;
   } else {
-    std::vector<std::size_t> sizes{shape.size(), static_cast<std::size_t>(scale.size())};
-    std::size_t max = x.size();
-    for (std::size_t i = 0; i < sizes.size(); i++) {
-      if (sizes[i] > max) {
-        max = sizes[i];
-      }
-    }
-    Vec<BaseType> res(SI{max});
+    Vec<BaseType> res(SI{x.size()});
     for (std::size_t i = 0; i < res.size(); i++) {
       m.lock();
       GetRNGstate();
-- 
2.43.0


From 6453d6f824defed686ad0da78ad6777d572ebf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 49/51] fix: importing an R object resets the dimensions and
 checks the type first

---
 include/etr_bits/Core/BaseStore.hpp | 48 +++--------------------------
 1 file changed, 4 insertions(+), 44 deletions(-)

diff --git a/include/etr_bits/Core/BaseStore.hpp b/include/etr_bits/Core/BaseStore.hpp
index a14302c..1de2141 100644
--- a/include/etr_bits/Core/BaseStore.hpp
+++ b/include/etr_bits/Core/BaseStore.hpp
@@ -191,50 +191,10 @@ template <typename T, typename BaseTrait> struct BaseStore {
 #ifdef STANDALONE_ETR
 #else
   void initSEXP(SEXP s) {
-    if (allocated) {
-      ass(p != nullptr, "try to delete nullptr");
-      delete[] p;
-      this->p = nullptr;
-    }
-    if constexpr (is<RetType, double>) {
-      ass(Rf_isReal(s), "R object is not of type numeric");
-      sz = static_cast<std::size_t>(Rf_length(s));
-      capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
-      if (Rf_isMatrix(s)) {
-        mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
-      }
-      for (int i = 0; i < sz; i++) {
-        p[i] = REAL(s)[i];
-      }
-      allocated = true;
-    } else if constexpr (is<RetType, int>) {
-      ass(Rf_isInteger(s), "R object is not of type integer");
-      sz = static_cast<std::size_t>(Rf_length(s));
-      capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
-      if (Rf_isMatrix(s)) {
-        mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
-      }
-      for (int i = 0; i < sz; i++) {
-        p[i] = INTEGER(s)[i];
-      }
-      allocated = true;
-    } else if constexpr (is<RetType, bool>) {
-      ass(Rf_isLogical(s), "R object is not of type logical");
-      sz = static_cast<std::size_t>(Rf_length(s));
-      capacity = static_cast<std::size_t>(sz);
-      p = new T[capacity];
-      if (Rf_isMatrix(s)) {
-        mp.setMatrix(true, Rf_nrows(s), Rf_ncols(s));
-      }
-      for (int i = 0; i < sz; i++) {
-        p[i] = LOGICAL(s)[i];
-      }
-      allocated = true;
-    } else {
-      static_assert(sizeof(T) == 0, "Unsupported type found");
-    }
+    // NOTE: checks the type before the own memory is released
+    BaseStore<T, BaseTrait> imported(s);
+    moveit(imported);
+    mp.setMatrix(imported.mp);
   }
 #endif
 
-- 
2.43.0


From ddcf341e4b3bc709e7a6e53f578a6bb2561411e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 50/51] fix: never release or hand over the memory of a
 borrowed R object

---
 include/etr_bits/Core/BorrowSEXP.hpp | 72 ++++++++++------------------
 1 file changed, 24 insertions(+), 48 deletions(-)

diff --git a/include/etr_bits/Core/BorrowSEXP.hpp b/include/etr_bits/Core/BorrowSEXP.hpp
index e8bbc67..fc5077e 100644
--- a/include/etr_bits/Core/BorrowSEXP.hpp
+++ b/include/etr_bits/Core/BorrowSEXP.hpp
@@ -93,44 +93,17 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
   }
 
   BorrowSEXP &operator=(SEXP inp) {
-    if (allocated == true) {
-      ass(p != nullptr, "try to delete nullptr");
+    // NOTE: checks the type before the own memory is released
+    BorrowSEXP<T> borrowed(inp);
+    if (todelete) {
       delete[] p;
-      this->p = nullptr;
-    }
-    if constexpr (is<RetType, double>) {
-      ass(Rf_isReal(inp), "R object is not of type numeric");
-      p = REAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else if constexpr (is<RetType, int>) {
-      ass(Rf_isInteger(inp), "R object is not of type numeric");
-      p = INTEGER(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else if constexpr (is<RetType, bool>) {
-      ass(Rf_isLogical(inp), "R object is not of type numeric");
-      p = LOGICAL(inp);
-      sz = Rf_length(inp);
-      capacity = Rf_length(inp);
-      if (Rf_isMatrix(inp)) {
-        mp.setMatrix(true, Rf_nrows(inp), Rf_ncols(inp));
-      }
-      todelete = false;
-      allocated = true;
-    } else {
-      static_assert(sizeof(T) == 0, "Unsupported type found");
     }
+    p = borrowed.p;
+    sz = borrowed.sz;
+    capacity = borrowed.capacity;
+    mp.setMatrix(borrowed.mp);
+    todelete = false;
+    allocated = true;
     return *this;
   }
 
@@ -170,7 +143,9 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     } else {
       if (newSize > capacity) {
         ass(p != nullptr, "try to delete nullptr");
-        delete[] p;
+        if (todelete) {
+          delete[] p;
+        }
         sz = newSize;
         capacity = static_cast<std::size_t>(newSize * 1.15);
         p = new T[capacity];
@@ -187,16 +162,10 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
 
   template <typename L2> BorrowSEXP &moveit(L2 &other) {
     if (!todelete) {
+      // NOTE: the memory of the R object is never handed over
       resize(other.size());
-      T *temporary = other.p;
-      int tempSize = other.sz;
-      int tempCapacity = other.capacity;
-      other.p = this->p;
-      other.sz = this->sz;
-      other.capacity = this->capacity;
-      this->p = temporary;
-      this->sz = tempSize;
-      this->capacity = tempCapacity;
+      for (std::size_t i = 0; i < sz; i++)
+        p[i] = other.p[i];
     } else {
       T *temporary = other.p;
       int tempSize = other.sz;
@@ -226,7 +195,9 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
     for (std::size_t i = sz; i < new_size; i++)
       temp[i] = T();
     sz = new_size;
-    delete[] p;
+    if (todelete) {
+      delete[] p;
+    }
     p = temp;
     allocated = true;
     temp = nullptr;
@@ -284,11 +255,16 @@ template <typename T, typename BorrowSEXPSEXPTrait> struct BorrowSEXP {
         std::copy(ptr, ptr + sz, p);
       }
     } else if constexpr (IsRVec<TInp> && is<DataType, T>) {
-      delete[] p;
+      if (todelete) {
+        delete[] p;
+      }
       DataType *ptr = inp.getPtr();
+      capacity = inp.d.capacity;
       inp.d.p = nullptr;
       inp.d.allocated = false;
       p = ptr;
+      allocated = true;
+      todelete = true;
     } else {
       if constexpr (is<DataType, T>) {
         for (std::size_t i = 0; i < sz; i++)
-- 
2.43.0


From 63f9d6a4ecd4734dd9a0de4d986d235691fd6a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 51/51] fix: assigning an R object to a vector borrowing one
 compiles

---
 include/etr_bits/Vector/AssignmentOperator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/etr_bits/Vector/AssignmentOperator.hpp b/include/etr_bits/Vector/AssignmentOperator.hpp
index 207fcc6..2e0a7fc 100644
--- a/include/etr_bits/Vector/AssignmentOperator.hpp
+++ b/include/etr_bits/Vector/AssignmentOperator.hpp
@@ -257,7 +257,11 @@ Vec &operator=(const Vec<T2, R2, Trait2> &otherVec) {
 #ifdef STANDALONE_ETR
 #else
 Vec &operator=(SEXP s) {
-  d.initSEXP(s);
+  if constexpr (isBorrowSEXP::value) {
+    d = s;
+  } else {
+    d.initSEXP(s);
+  }
   return *this;
 }
 #endif
-- 
2.43.0

