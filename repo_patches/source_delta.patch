From 65e06e0d4eff4a0c996fbfa5a23418d8e8cad72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 01/53] fix: Monom::div(a) must cancel the module position like
 the quotient constructor does

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..33a8df4 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos >= 0)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From 8ecedbd2f0a9f955041520ec02106ba84fea09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 02/53] fix: monomials of different module positions are not
 equal

---
 ginv/monom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 33a8df4..a5205e7 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
-- 
2.43.0


From 1e5d3ac11cf5a24fceb2f3e9527b3f0fcb43d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 03/53] fix: Wrap::update must notice a leading monomial that
 changed only its position

---
 ginv/wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..82d9d33 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm != m) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From 1119c0760ad51bddbec923b2ab378b8365002273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 04/53] fix: a constant module element does not generate the
 whole ring

---
 ginv/poly_int.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..6b862eb 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -720,7 +720,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -939,7 +939,7 @@ void JanetPolyInt::algorithmTQ1() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1123,7 +1123,7 @@ void JanetPolyInt::algorithmTQ2() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1318,7 +1318,7 @@ void JanetPolyInt::algorithmTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() == -1) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
-- 
2.43.0


From 8de83e60db764ef988077376b55667f14ac61207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 05/53] fix: block algorithm missed a unit found while
 inter-reducing the block

---
 ginv/poly_int.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6b862eb..e7cbc41 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -838,6 +838,13 @@ std::cerr << "A" << std::endl;
       }
     } while(k1);
 
+    if (tmp.head()->poly().degree() == 0 && tmp.head()->poly().lm().pos() == -1) {
+      for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
+        delete j.data();
+      setOne(order, size);
+      break;
+    }
+
     GCListWrapPolyInt::Iterator k(tmp.begin());
     while(k) {
       k.data()->update(k.data()->poly().lm());
-- 
2.43.0


From a43e27f7808197d563cebb61831f868bec3ccb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 06/53] fix: Janet basis construction stopped with
 non-multiplicative prolongations left

---
 ginv/poly_int.cpp | 14 ++++++++++----
 ginv/poly_int.h   |  1 +
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index e7cbc41..35af1df 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -632,6 +632,12 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::prolong() {
+  for(GCListWrapPolyInt::Iterator k(mT.begin()); k && !mQ; ++k)
+    prolong(k.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -704,7 +710,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -928,7 +934,7 @@ void JanetPolyInt::algorithmTQ1() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1112,7 +1118,7 @@ void JanetPolyInt::algorithmTQ2() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1309,7 +1315,7 @@ void JanetPolyInt::algorithmTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(mQ || prolong()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..6fc7e07 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -367,6 +367,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool prolong();
   bool assertT() const;
 
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
-- 
2.43.0


From 60ec05f72989095fd3406f141f474fd0a1afecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 07/53] fix: the product criterion is not valid for module
 elements

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 35af1df..b1bba75 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -618,7 +618,7 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      if (d && m.pos() == -1 && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
-- 
2.43.0


From c03632362de878d2bf8ba25766e160738d6c48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 08/53] fix: TQ2 lost the new element (and could cycle) when it
 restarted the Janet tree

---
 ginv/poly_int.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index b1bba75..c883bd3 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1245,14 +1245,14 @@ void JanetPolyInt::algorithmTQ2() {
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-    if (degPref > deg) {
-      delete[] mJanet;
-      mJanet = new GCJanet[mPos+2];
-      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
-        j.data()->clearNM();
-        mQ.push(j.data());
-      }
-    }
+//    if (degPref > deg) {
+//      delete[] mJanet;
+//      mJanet = new GCJanet[mPos+2];
+//      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
+//        j.data()->clearNM();
+//        mQ.push(j.data());
+//      }
+//    }
     degPref = deg;
 
 
-- 
2.43.0


From 13f24bf639116290e7788b254d95f97ce4bf3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 09/53] fix: PolyInt::mult by a monomial released only the
 first of the old terms

---
 ginv/poly_int.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index c883bd3..2dd7311 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -295,7 +295,11 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    List<Term*>::ConstIterator k(tmp.begin());
+    while(k) {
+      mAllocator->destroy(k.data());
+      ++k;
+    }
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From 13f12dd64c6ad6413d5d6692407a39977c837ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 10/53] fix: PolyInt::pow(0) is one, not zero

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 2dd7311..c3d7bd4 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -362,8 +362,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    mHead.push(new(mAllocator) Term(mAllocator, mSize));
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From 4e444cba6bb4d1636fb535cb5204875a8ef84784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 11/53] fix: adding an integer to a PolyInt kept zero terms and
 ignored the monomial order

---
 ginv/poly_int.cpp | 48 ++++++-----------------------------------------
 ginv/poly_int.h   |  2 ++
 2 files changed, 8 insertions(+), 42 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index c3d7bd4..55d9b12 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -127,26 +127,9 @@ void PolyInt::minus() {
 }
 
 void PolyInt::add(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  PolyInt a(allocator, mOrder, mSize, hex);
+  add(a);
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -183,28 +166,9 @@ void PolyInt::add(const PolyInt &a) {
 }
 
 void PolyInt::sub(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  PolyInt a(allocator, mOrder, mSize, hex);
+  sub(a);
 }
 
 void PolyInt::sub(const PolyInt &a) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 6fc7e07..f882c03 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -134,6 +134,8 @@ public:
       mAllocator(allocator),
       mHead(allocator) {
     mHead.push(new(allocator) Term(allocator, size, integer));
+    if (lc().isZero())
+      clear();
     assert(assertValid());
   }
   PolyInt(Allocator* allocator, int order, const Monom& a):
-- 
2.43.0


From 8895d83b8cb77f5db89a2d74566901830c9af238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 12/53] fix: RBTree assignment from an empty tree dereferenced
 a null root

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..cac4272 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From 703adee58494cec796d51400aaeda04905b3a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 13/53] fix: RBTree move constructor named a member that does
 not exist

---
 util/rbtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cac4272..01cfa82 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -475,7 +475,7 @@ public:
   };
 
   inline RBTree(RBTree&& a):
-      mAllocator(a.allocator),
+      mAllocator(a.mAllocator),
       mRoot(a.mRoot),
       mCount(a.mCount) {
     a.mRoot = nullptr;
-- 
2.43.0


From 082d05becd1ab67a3a35d77d34ab983318c73b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 14/53] fix: List move assignment could not modify its source
 and did not compile

---
 util/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/list.h b/util/list.h
index 60d015f..76ce2b4 100644
--- a/util/list.h
+++ b/util/list.h
@@ -211,7 +211,7 @@ public:
       ++i;
     }
   }
-  inline void operator=(const List&& a) {
+  inline void operator=(List&& a) {
     assert(this != &a);
 
     Iterator(this).clear();
-- 
2.43.0


From c834d76bd54b135867e2d4537a3faa2ea21a705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 15/53] fix: Integer move assignment leaked the old limbs
 without the integer allocator

---
 util/integer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/integer.h b/util/integer.h
index 37aac0f..a09295c 100644
--- a/util/integer.h
+++ b/util/integer.h
@@ -162,7 +162,7 @@ public:
     mpz_swap(&mMpz, &a.mMpz);
   }
   void operator=(Integer&& a) {
-    mpz_set(&mMpz, &a.mMpz);
+    mpz_clear(&mMpz);
     mMpz._mp_alloc = a.mMpz._mp_alloc;
     mMpz._mp_size = a.mMpz._mp_size;
     mMpz._mp_d = a.mMpz._mp_d;
-- 
2.43.0


From 849df3a45c101c28cd4321ec90bd10b8d49cbae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 16/53] fix: HilbertPoly::binomial leaked its working rational

---
 util/hilbertpoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index f101d89..892dff6 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -108,6 +108,7 @@ void HilbertPoly::binomial(long int a, unsigned long b) {
 
     for(k = 0; k < b; k++)
       mpq_clear(tmp + k);
+    mpq_clear(&q);
 
     delete[] tmp;
   }
-- 
2.43.0


From 23304175d030a1774dee1a7ab39d4e47c65da99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 17/53] fix: the Hilbert polynomial of a module counted the
 component of plain polynomials

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 55d9b12..d1c70bd 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -662,7 +662,7 @@ void JanetPolyInt::buildHP(HilbertPoly& hp) const {
   int d=mT.head()->lm().size();
   hp.setDim(d);
   hp.binomial(d, d);
-  hp.mult(mPos+2);
+  hp.mult((mPos == -1)? 1: mPos+1);
   HilbertPoly tmp(d);
   for(GCListWrapPolyInt::ConstIterator j(mT.begin()); j; ++j) {
     int m=j.data()->multi();
-- 
2.43.0


From 0ad50bfffed206c739d32e5f38ee7dae2494f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 18/53] fix: TQ2 without any nonzero input read the head of an
 empty basis

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d1c70bd..d65a63a 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1269,7 +1269,7 @@ void JanetPolyInt::algorithmTQ2() {
 
   std::cerr << "isZeroNf() - " << isZeroNf() << std::endl;
 
-  if (mOneWrap == nullptr) {
+  if (mOneWrap == nullptr && mT) {
     HilbertPoly hp;
     buildHP(hp);
     std::cerr << "HilbertPoly - " << hp << std::endl;
-- 
2.43.0


From e29d662e84943e4914b01854c24303e92f63e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 19/53] fix: MCompletion used a duplicate monomial after
 destroying it

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From bfed6286a2e51a430b1fb5f83392736a3f160d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 20/53] fix: copying a Janet tree lost everything below the
 last node of each level

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 090e9523ed44ba9173c5e36cfc62703140f3d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 21/53] fix: TQ, TQ1 and TQ2 put polynomials into the basis
 without making them primitive

---
 ginv/poly_int.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d65a63a..c3cffe8 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1021,6 +1021,7 @@ void JanetPolyInt::algorithmTQ1() {
     }
     assert(assertSort(mQ));
 
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
@@ -1212,6 +1213,7 @@ void JanetPolyInt::algorithmTQ2() {
       w->poly().pp();
       w->reallocate();
     }
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
@@ -1370,6 +1372,7 @@ void JanetPolyInt::algorithmTQ() {
     }
      assert(assertSort(mQ));
 
+    w->poly().pp();
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-- 
2.43.0


From 404c06dd949d67689e0353cb4a57b10d53d34da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 22/53] fix: block algorithm left tails of the new block
 reducible by the block itself

---
 ginv/poly_int.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index c3cffe8..2660eec 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -828,6 +828,14 @@ std::cerr << "A" << std::endl;
       mJanet[k.data()->lm().pos()+1].insert(k.data());
       ++k;
     }
+    for(k = tmp.begin(); k; ++k) {
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
+      }
+    }
 
 //     if (degPref > deg) {
 //       delete[] mJanet;
-- 
2.43.0


From 20e9805227120e98f79c1217421358a43f2a7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 23/53] fix: integer operands on the left of a polynomial need
 the C binary operator slots

__add__, __sub__ and __mul__ are written for being called with either operand first;
Cython 3 calls them that way only with c_api_binop_methods, so 12*p, 1+p and 2-p
raised TypeError.
---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 73ed869..3158547 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -1,4 +1,5 @@
 # distutils: language = c++
+# cython: c_api_binop_methods=True
 
 from libcpp cimport bool
 
-- 
2.43.0


From 5292d510012c3f80c672778da4dfe58729156982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 24/53] fix: subtracting an integer from a polynomial added it

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 3158547..6f13690 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -518,7 +518,7 @@ cdef class const_poly_int:
     if isinstance(other, const_poly_int):
       return -other.sub(self)
     else:
-      return self.add(other)
+      return self.sub(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
-- 
2.43.0


From 83f220af3f3d5750d62f0b08d00f08b88389bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 25/53] fix: the timer of a basis reported the garbage
 collector's times

---
 cython/ginv.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 6f13690..f163373 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -75,11 +75,14 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
-    return allocator_timer().userTime()
+    assert self.ptr
+    return self.ptr.userTime()
   def sysTime(self):
-    return allocator_timer().sysTime()
+    assert self.ptr
+    return self.ptr.sysTime()
   def realTime(self):
-    return allocator_timer().realTime()
+    assert self.ptr
+    return self.ptr.realTime()
 
   def __str__(self):
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
-- 
2.43.0


From 35552b57063ac37ec9b205542215da2858e9544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 26/53] fix: an index outside a monomial read foreign memory

---
 cython/ginv.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index f163373..531fab8 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -268,6 +268,7 @@ cdef class const_monom:
     return self.ptr.degree()
   def __getitem__(self, k):
     assert self.ptr
+    assert 0 <= k < self.ptr.size()
     return self.ptr.get(k)
   def __iter__(self):
     assert self.ptr
@@ -620,8 +621,10 @@ cdef class wrap_poly_int:
     return self.ptr.isGB()
 
   def NM(self, int var):
+    assert 0 <= var < self.ptr.lm().size()
     return self.ptr.NM(var)
   def build(self, int var):
+    assert 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
     r = const_poly_int()
-- 
2.43.0


From b8cdb51e18afd893fb6ec63843674e2f017d2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:50 +0000
Subject: [PATCH 27/53] fix: the normal form overwrote its constant argument,
 even an element of the basis

---
 cython/ginv.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 531fab8..808e30e 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -747,9 +747,11 @@ cdef class janet_poly_int:
       return r
 
   def nf(self, const_poly_int p):
-    self.ptr.comparable(p.ptr[0])
-    self.ptr.nf((<PolyInt *>p.ptr)[0])
-    return p
+    assert p.ptr and self.ptr.comparable(p.ptr[0])
+    r = poly_int()
+    r.ptr = new PolyInt(r.allocator, p.ptr[0])
+    self.ptr.nf((<PolyInt *>r.ptr)[0])
+    return r
 
   def maxPos(self):
     return self.ptr.maxPos()
-- 
2.43.0


From 52c0020e63ecb80cb0b40b615fc679ff15860bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 28/53] fix: monomials, coefficients and polynomials outlived
 the object they point into

lm(), lc(), ansector(), poly(), janet(), timer() and the iterators returned views that
dangled as soon as their owner was collected, for example in (a*b).lm().
---
 cython/ginv.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 808e30e..3ad5454 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -71,6 +71,7 @@ cdef class const_timer_GC:
 
 cdef class const_timer:
   cdef const Timer* ptr
+  cdef object owner
   def __cinit__(self):
     self.ptr = NULL
 
@@ -176,6 +177,7 @@ cdef extern from "integer.h" namespace "GInv":
 
 cdef class const_integer:
   cdef const Integer *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -251,6 +253,7 @@ cdef extern from "monom.h" namespace "GInv":
 
 cdef class const_monom:
   cdef const Monom *ptr
+  cdef object owner
   def __cinit__(self):
     self.ptr = NULL
 
@@ -404,6 +407,7 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class const_poly_int:
   cdef const PolyInt *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -420,6 +424,7 @@ cdef class const_poly_int:
     while i.isNext():
       m, c = const_monom(), const_integer()
       m.ptr, c.ptr = &i.monom(), &i.coeff()
+      m.owner = c.owner = self
       i.next()
       yield (m, c)
   def __str__(self):
@@ -450,12 +455,14 @@ cdef class const_poly_int:
     assert self
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def lc(self):
     assert self.ptr
     assert self
     r = const_integer()
     r.ptr = &self.ptr.lc()
+    r.owner = self
     return r
   def comparable(self, const_poly_int other):
     return self.ptr.comparable(other.ptr[0])
@@ -606,16 +613,19 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class wrap_poly_int:
   cdef const WrapPolyInt *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
   def lm(self):
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def ansector(self):
     r = const_monom()
     r.ptr = &self.ptr.ansector()
+    r.owner = self
     return r
   def isGB(self):
     return self.ptr.isGB()
@@ -629,6 +639,7 @@ cdef class wrap_poly_int:
   def poly(self):
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
+    r.owner = self
     return r
 
   def __str__(self):
@@ -650,6 +661,7 @@ cdef extern from "janet.h" namespace "GInv":
 
 cdef class const_janet:
   cdef const Janet *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -719,6 +731,7 @@ cdef class janet_poly_int:
     while i.isNext():
       r = wrap_poly_int()
       r.ptr = i.data()
+      r.owner = self
       i.next()
       yield r
 
@@ -744,6 +757,7 @@ cdef class janet_poly_int:
     else:
       r = wrap_poly_int()
       r.ptr = w
+      r.owner = self
       return r
 
   def nf(self, const_poly_int p):
@@ -759,6 +773,7 @@ cdef class janet_poly_int:
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
+    r.owner = self
     return r
 
   def HilbertPoly(self):
@@ -776,6 +791,7 @@ cdef class janet_poly_int:
   def timer(self):
     r = const_timer()
     r.ptr = &self.ptr.timer()
+    r.owner = self
     return r
   def reduction(self):
     return self.ptr.reduction()
-- 
2.43.0


From 3535bf2d851280a66eb9b0609426c852f1747562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 29/53] fix: degree of the zero polynomial dereferenced a null
 term instead of asserting like lm and lc

---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 3ad5454..ae8c0e0 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -445,6 +445,7 @@ cdef class const_poly_int:
     return self.ptr.isZero()
   def degree(self):
     assert self.ptr
+    assert self
     return self.ptr.degree()
   def norm(self):
     assert self.ptr
-- 
2.43.0


From bb00f969587f94c466fceedf762316b0f6d45cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 30/53] fix: asking the basis of the whole ring for its Janet
 tree returned a null view

---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index ae8c0e0..a0d922b 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -771,6 +771,7 @@ cdef class janet_poly_int:
   def maxPos(self):
     return self.ptr.maxPos()
   def janet(self, pos):
+    assert not self.ptr.isOne()
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
-- 
2.43.0


From 0928573fe19ca4f9096be7aaffca40e132577a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 31/53] fix: Cython polynomials and monomials never released
 their memory

Cython neither constructs nor destroys a C++ array member, so the arena of every
Python object was leaked.
---
 cython/ginv.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index a0d922b..e8a81a0 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -334,9 +334,12 @@ cdef class const_monom:
     return self.ptr.alex(other.ptr[0])
 
 cdef class monom(const_monom):
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
   def __dealloc__(self):
     del self.ptr
+    del self.allocator
 
   @staticmethod
   def zero(int size, int pos):
@@ -564,9 +567,12 @@ cdef class const_poly_int:
     return self.ptr.isPp()
 
 cdef class poly_int(const_poly_int):
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
   def __dealloc__(self):
     del self.ptr
+    del self.allocator
 
   @staticmethod
   def to_monom(pos, order, const_monom a):
-- 
2.43.0


From 320ec74b978df7abf192b0c2435c73acc66bdb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 32/53] fix: lcm and gcd of monomials lost the module position

---
 pyginv/monomial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..3d44f3f 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -164,11 +164,15 @@ class Monom(tuple):
 
   def lcm(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    return Monom(max(i, j) for i, j in zip(self, other))
+    r = Monom(max(i, j) for i, j in zip(self, other))
+    r.__pos = max(self.__pos, other.__pos)
+    return r
 
   def gcd(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    return Monom(min(i, j) for i, j in zip(self, other))
+    r = Monom(min(i, j) for i, j in zip(self, other))
+    r.__pos = min(self.__pos, other.__pos)
+    return r
 
   def __nonzero__(self):
     return self.__pos >= 0 or sum(self) > 0
-- 
2.43.0


From 37a7ec651ebdd6899cc4c3bc7dadb39427abc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 33/53] fix: pyginv 2 - p gave p - 2

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index c40b8f7..a3ab826 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -107,7 +107,7 @@ class Poly(list):
     return p
 
   def __rsub__(self, other):
-    return self-other
+    return -self+other
 
   def __sub__(self, other):
     if other == S.Zero:
-- 
2.43.0


From 0e9de294b363ea54e5328bf1b3842c44f28c9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 34/53] fix: sums of pyginv polynomials shared terms with their
 operands, so in-place reductions changed both

---
 pyginv/polynomial.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index a3ab826..3c86b6d 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -63,7 +63,7 @@ class Poly(list):
     return self.lm().cmp(other.lm())
 
   def __pos__(self):
-    return self
+    return self.__class__(self)
 
   def __neg__(self):
     p = self.__class__()
@@ -76,7 +76,7 @@ class Poly(list):
 
   def __add__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -86,10 +86,10 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append(list(self[i]))
         i += 1
       elif c < 0:
-        p.append(other[j])
+        p.append(list(other[j]))
         j += 1
       else:
         k = self[i][1] + other[j][1]
@@ -98,10 +98,10 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append(list(self[i]))
       i += 1
     while j < jend:
-      p.append(other[j])
+      p.append(list(other[j]))
       j += 1
     assert p.assertValid()
     return p
@@ -111,7 +111,7 @@ class Poly(list):
 
   def __sub__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -121,7 +121,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append(list(self[i]))
         i += 1
       elif c < 0:
         p.append([other[j][0], -other[j][1]])
@@ -133,7 +133,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append(list(self[i]))
       i += 1
     while j < jend:
       p.append([other[j][0], -other[j][1]])
@@ -146,7 +146,7 @@ class Poly(list):
 
   def __mul__(self, other):
     if other == S.One:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -180,7 +180,7 @@ class Poly(list):
     if other == 0:
       p = self.__class__(Integer(1))
     else:
-      p = self
+      p = self.__class__(self)
       for i in range(1, other):
         p = p*self
     return p
-- 
2.43.0


From 01d94b4c449493de05b13818bd64f12a0059231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 35/53] fix: pyginv 2 / p gave p / 2

---
 pyginv/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 3c86b6d..4a9a250 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -167,7 +167,8 @@ class Poly(list):
     return p
   
   def __rtruediv__(self, other):
-    return self/other
+    assert len(self) == 1 and not self.lm()
+    return self.__class__(other/self.lc())
   
   def __truediv__(self, other):
     p = self.__class__()
-- 
2.43.0


From bf8ad12afd0314f18338c7a2d50f2bb3533e0a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 36/53] fix: ginvMin made prolongations only when it printed,
 by default it returned no basis

---
 pyginv/ginv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index f57d193..02cb952 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -151,13 +151,14 @@ def ginvMin(pset, invdiv, level=0):
   q = Q(Wrap(p) for p in pset)
   while True:
     m = q[0].lm if q else None
-    if level > 0:
-      if m:
+    if m:
+      if level > 0:
         print(f"prolong {m}")
-        q.push(invdiv.prolongMonom(m))
-      else:
+      q.push(invdiv.prolongMonom(m))
+    else:
+      if level > 0:
         print("prolongAll")
-        q.push(invdiv.prolongAll())
+      q.push(invdiv.prolongAll())
     if not q:
       break
     r = q.reduceAll(invdiv)
-- 
2.43.0


From 0a6c7955044f33ccc07eb75a1c4573c531867dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 37/53] fix: ginvBlockLow stopped at an element of degree zero
 and returned an empty basis

---
 pyginv/ginv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index 02cb952..ceabad6 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -198,9 +198,9 @@ def ginvBlockLow(pset, invdiv, level=0):
     i = invdiv.degMinProlong()
     if level > 0:
       print(f"prolong {i}, Q {j}")
-    if i == 0 and j == 0:
+    if i == 0 and not q:
       break
-    if j == 0 or 0 < i < j:
+    if not q or 0 < i < j:
       q.push(invdiv.prolongDeg(i))
     res = q.reduceMinDegree(invdiv)
     if res:
-- 
2.43.0


From 42ae68260cf5e1963a8409dfbe0f848b6f2c1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 38/53] fix: pyginv applied the product criterion to module
 elements and lost elements of the module

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index fdffb11..04c9ac9 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -79,7 +79,7 @@ class Wrap:
     return sum(0 if i else 1 for i in self.nonmult)
 
   def crit1(self, other):
-    return type(self.poly) == Poly and\
+    return type(self.poly) == Poly and self.lm.position() < 0 and\
         all(i == 0 or j == 0 for i, j in zip(self.ansector, other.ansector))
 
   def crit2(self, other):
-- 
2.43.0


From 656955e6a07eb849bfa0cd99c7ca406e269c77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 39/53] fix: JanetCache reduced prolongations by outdated
 multiples of themselves

---
 pyginv/janet.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 04c9ac9..4f9572a 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -394,13 +394,12 @@ class JanetCache(Janet):
       if not m1:
         r = w.poly
       else:
-        if m in self.сache:
-          r = self.сache[m]
-        else:
+        lm, r = self.сache.get(m, (None, None))
+        if lm is not w.lm:
           r = w.poly.mult(m1, sympy.S.One)
         r.NFtail(self)
         r.pp()
-        self.сache[m] = r
+        self.сache[m] = w.lm, r
         #print(m1, end=" ")
     return r
 
-- 
2.43.0


From dc3b2febfa37fc3cf50bd7ba3a0cc84a07e00081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 40/53] fix: a forest of cached Janet trees failed on terms of
 other components

---
 pyginv/janet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 4f9572a..e94e2f5 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -386,6 +386,8 @@ class JanetCache(Janet):
     self.сache = {}
 
   def find(self, m):
+    if self.root and self.pos != m.position():
+      return None
     w = self.findWrap(m)
     if not w:
       return None
-- 
2.43.0


From 8414981aa87ba50745dfc0fcbb10dfb282ed3adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 41/53] fix: normal forms with rational coefficients kept terms
 whose coefficient is zero

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 4a9a250..9840954 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -296,7 +296,7 @@ class Poly(list):
       else:
         k = self[i][1] + other[j][1]*k2
         if not k.is_integer:
-          k = expand(k)
+          k = cancel(k)
         if k == S.Zero:
           del self[i]
         else:
-- 
2.43.0


From 6f9bd1c5aa7a541563f2eb89e103a261442ffa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 42/53] fix: every drawing leaked a graphviz context

graphviz 2.43 cannot free a context and make another, so keep one.
---
 ginv/gb.h     | 2 +-
 ginv/janet.h  | 2 +-
 util/rbtree.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ginv/gb.h b/ginv/gb.h
index 6519e48..263d782 100644
--- a/ginv/gb.h
+++ b/ginv/gb.h
@@ -55,7 +55,7 @@ public:
 
 #ifdef GINV_GRAPHVIZ
   void draw(const char* format, const char* filename) const {
-    GVC_t *gvc=gvContext();
+    static GVC_t *gvc=gvContext();
     Agraph_t *g=agopen((char*)"GB",  Agdirected, (Agdisc_t*)nullptr);
     std::stringstream ss;
     ss << "#GB = " << size();
diff --git a/ginv/janet.h b/ginv/janet.h
index 7ac213b..366146e 100644
--- a/ginv/janet.h
+++ b/ginv/janet.h
@@ -166,7 +166,7 @@ public:
   }
 
   void draw(const char* format, const char* filename) const {
-    GVC_t *gvc=gvContext();
+    static GVC_t *gvc=gvContext();
     Agraph_t *g=agopen((char*)"Janet",  Agdirected, (Agdisc_t*)nullptr);
     std::stringstream ss;
     ss << "#Janet = " << size() << std::endl;
diff --git a/util/rbtree.h b/util/rbtree.h
index 01cfa82..2bd35ad 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -650,7 +650,7 @@ public:
 
 #ifdef GINV_UTIL_GRAPHVIZ
   void draw(const char* format, const char* filename) const {
-    GVC_t *gvc=gvContext();
+    static GVC_t *gvc=gvContext();
     Agraph_t *g=agopen((char*)"RBTree",  Agdirected, (Agdisc_t*)nullptr);
     draw(g, mRoot);
     gvLayout(gvc, g, (char*)"dot");
-- 
2.43.0


From e954a351557f67e2d2b0e586d4e88670cb9959d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 43/53] fix: drawing an empty Janet tree asked for its Hilbert
 polynomial

---
 ginv/janet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginv/janet.h b/ginv/janet.h
index 366146e..84cd7fa 100644
--- a/ginv/janet.h
+++ b/ginv/janet.h
@@ -171,7 +171,8 @@ public:
     std::stringstream ss;
     ss << "#Janet = " << size() << std::endl;
     HilbertPoly hp;
-    buildHP(hp);
+    if (mRoot)
+      buildHP(hp);
     ss << "#HP = " << hp;
     agnode(g, (char*)ss.str().c_str(), 1);
     if (mRoot)
-- 
2.43.0


From 65946065141edb237509c2507370a7074639d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 44/53] fix: an assertion on requested limbs failed for zero
 and negative integers

---
 util/integer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/util/integer.cpp b/util/integer.cpp
index fdf1f6f..2836399 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -27,7 +27,6 @@ char*  Integer::sBuffer=new char[Integer::sBufferSize];
 
 #ifdef GINV_UTIL_INTEGER_ALLOCATOR  
   void Integer::reallocate(int size) {
-    assert(size > 0);
     if (mMpz._mp_alloc < size) {
       if (mMpz._mp_alloc)
         mAllocator->dealloc(mMpz._mp_d, mMpz._mp_alloc);
-- 
2.43.0


From 828ee0a7118f967cc45f2344752a97ef3df21976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 45/53] fix: degrees of gcd and lcm of monomials of one module
 position failed an assertion

---
 ginv/monom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index a5205e7..3d73774 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -289,7 +289,7 @@ void Monom::div(const Monom& a) {
 
 int Monom::gcd(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] <= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
@@ -298,7 +298,7 @@ int Monom::gcd(const Monom& a) const {
 
 int Monom::lcm(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] >= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
-- 
2.43.0


From 995e7778fb6d88a3a3b1a672a8f55d68e04feb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 46/53] fix: inserting a constant module element in a Janet
 tree failed an assertion

---
 ginv/janet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index ee660c2..44b682d 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -338,7 +338,7 @@ void Janet::insert(Wrap *wrap) {
     Monom::Variable var = 0;
     do {
       assert(j);
-      assert(d > 0);
+      assert(d > 0 || var == 0);
       assert(var < wrap->lm().size());
 
       while(j.degree() < wrap->lm()[var] && j.nextDeg())
-- 
2.43.0


From 573b3b189baae8a0f0ebb9dfc149e121ad74bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 47/53] fix: TQ2 returned elements to the queue out of order

---
 ginv/poly_int.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 2660eec..15a6313 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1206,12 +1206,10 @@ void JanetPolyInt::algorithmTQ2() {
 //       continue;
 //     }
 
-    j = mQ.begin();
     k = tmp.begin();
     while(k) {
-      j.insert(k.data());
+      insert(mQ, k.data());
       k.del();
-      ++j;
     }
     assert(assertSort(mQ));
 
-- 
2.43.0


From 5edda72a76e80f57f4eae9708477823e7876e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 48/53] fix: S-polynomials of module elements failed; lcm and
 gcd of monomials carry no position again

---
 pyginv/monomial.py   | 8 ++------
 pyginv/polynomial.py | 2 ++
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3d44f3f..3594da0 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -164,15 +164,11 @@ class Monom(tuple):
 
   def lcm(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    r = Monom(max(i, j) for i, j in zip(self, other))
-    r.__pos = max(self.__pos, other.__pos)
-    return r
+    return Monom(max(i, j) for i, j in zip(self, other))
 
   def gcd(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    r = Monom(min(i, j) for i, j in zip(self, other))
-    r.__pos = min(self.__pos, other.__pos)
-    return r
+    return Monom(min(i, j) for i, j in zip(self, other))
 
   def __nonzero__(self):
     return self.__pos >= 0 or sum(self) > 0
diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 9840954..0c69518 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -351,6 +351,8 @@ class Poly(list):
     assert self and other
     assert self.lm().position() == other.lm().position()
     m, k = self[0][0].lcm(other[0][0]), gcd(self[0][1], other[0][1])
+    if self.lm().position() >= 0:
+      m = Monom(m, pos=self.lm().position())
     #assert self[0][1]%k == S.Zero and other[0][1]%k == S.Zero
     return self.mult(m/self[0][0], other[0][1]/k) - other.mult(m/other[0][0], self[0][1]/k)
 
-- 
2.43.0


From 5c0ff7a0ce5093a6ec80736e849f3883c84914a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 49/53] fix: latex of powers with exponents of several digits
 was wrong

---
 pyginv/monomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..ade95ed 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -75,7 +75,7 @@ class Monom(tuple):
         return Monom.__fun[self.__pos]
   
   def latex(self):
-    m = " ".join(f"{{{v}}}^{d}" if d > 1 else f"{{{v}}}" \
+    m = " ".join(f"{{{v}}}^{{{d}}}" if d > 1 else f"{{{v}}}" \
                 for v, d in zip(Monom.__var, self) if d >= 1)
     if self.__pos == -1:
       if m:
-- 
2.43.0


From 63ddf223465bb4a272a2ac36e4d01a5b5731e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 50/53] fix: None for an object of the Cython module
 dereferenced a null pointer

---
 cython/ginv.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index e8a81a0..2d253f7 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -1,5 +1,6 @@
 # distutils: language = c++
 # cython: c_api_binop_methods=True
+# cython: nonecheck=True
 
 from libcpp cimport bool
 
-- 
2.43.0


From 76f866d47f1caa7a69974c921925a8c6a31a1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 51/53] fix: views that show nothing dereferenced a null
 pointer instead of asserting

---
 cython/ginv.pyx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 2d253f7..398ba1c 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -87,6 +87,7 @@ cdef class const_timer:
     return self.ptr.realTime()
 
   def __str__(self):
+    assert self.ptr
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
         self.ptr.userTime(),\
         self.ptr.sysTime(),\
@@ -470,9 +471,11 @@ cdef class const_poly_int:
     r.owner = self
     return r
   def comparable(self, const_poly_int other):
+    assert self.ptr and other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def order(self):
+    assert self.ptr
     cdef int c
     c = self.ptr.order()
     if c & 0x10:
@@ -487,6 +490,7 @@ cdef class const_poly_int:
       r = (r, "alex")
     return r
   def size(self):
+    assert self.ptr
     return self.ptr.size()
 
   def __neg__(self):
@@ -557,6 +561,7 @@ cdef class const_poly_int:
       return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
+    assert self.ptr
     assert other >= 0
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
@@ -626,31 +631,38 @@ cdef class wrap_poly_int:
     self.ptr = NULL
 
   def lm(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.lm()
     r.owner = self
     return r
   def ansector(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.ansector()
     r.owner = self
     return r
   def isGB(self):
+    assert self.ptr
     return self.ptr.isGB()
 
   def NM(self, int var):
+    assert self.ptr
     assert 0 <= var < self.ptr.lm().size()
     return self.ptr.NM(var)
   def build(self, int var):
+    assert self.ptr
     assert 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
+    assert self.ptr
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
     r.owner = self
     return r
 
   def __str__(self):
+    assert self.ptr
     return "%s%s[%s]" % (self.lm(), self.ansector(),\
         "".join("*" if self.ptr.NM(var) else " " for 0 <= var < self.ptr.lm().size()))
 
@@ -744,10 +756,11 @@ cdef class janet_poly_int:
       yield r
 
   def comparable(self, const_poly_int other):
+    assert other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def push(self, const_poly_int other):
-    assert self.ptr.comparable(other.ptr[0])
+    assert other.ptr and self.ptr.comparable(other.ptr[0])
     self.ptr.push(other.ptr[0])
     return self
 
@@ -759,6 +772,7 @@ cdef class janet_poly_int:
 
   def find(self, const_monom m):
     cdef WrapPolyInt* w
+    assert m.ptr
     w = self.ptr.find(m.ptr[0])
     if w == NULL:
       return None
-- 
2.43.0


From 46f74f639015c83591eac5ad219d4c224facedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 52/53] fix: a variable, a permutation or a lookup of a wrong
 size used foreign memory, random monomials before rand_init a null pointer

---
 cython/ginv.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 398ba1c..b8656c7 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -135,6 +135,7 @@ cdef extern from "randpermutation.h" namespace "GInv":
 cdef class randpermutation:
   cdef RandPermutation_mt19937 *ptr
   def __cinit__(self, int n):
+    assert n > 0
     self.ptr = new RandPermutation_mt19937(n)
   def __dealloc__(self):
     del self.ptr
@@ -335,6 +336,8 @@ cdef class const_monom:
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.alex(other.ptr[0])
 
+cdef bint monom_rand = False
+
 cdef class monom(const_monom):
   cdef Allocator *allocator
   def __cinit__(self):
@@ -352,16 +355,20 @@ cdef class monom(const_monom):
   @staticmethod
   def variable(Variable v, int size, int pos):
     assert size > 1 and pos >= -1
+    assert 0 <= v < size
     r = monom()
     r.ptr = new Monom(r.allocator, v, size, pos)
     return r
 
   @staticmethod
   def rand_init(int size, int deg1, int deg2):
+    global monom_rand
     assert size > 1 and 0 < deg1 < deg2
     monom_rand_init(size, deg1, deg2)
+    monom_rand = True
   @staticmethod
   def next():
+    assert monom_rand
     r = monom()
     r.ptr = monom_next(r.allocator)
     return r
@@ -773,6 +780,9 @@ cdef class janet_poly_int:
   def find(self, const_monom m):
     cdef WrapPolyInt* w
     assert m.ptr
+    for e in self:
+      assert m.ptr.size() == (<wrap_poly_int>e).ptr.lm().size()
+      break
     w = self.ptr.find(m.ptr[0])
     if w == NULL:
       return None
-- 
2.43.0


From 8dddf4aff0723baca70a373ce8ad0a0dacb548e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 53/53] fix: reductions to zero were not counted by the default
 and TQ constructions

---
 ginv/poly_int.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 15a6313..a85d50e 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -692,6 +692,7 @@ void JanetPolyInt::algorithmBlockTQ() {
     while(j && j.data()->poly().lm().degree() <= deg) {
       int r=j.data()->poly().nf(*this);
       if (j.data()->poly().isZero()) {
+        ++mIsZeroNf;
         std::cerr << "1 =0" << std::endl;
         delete j.data();
       }
@@ -705,7 +706,7 @@ void JanetPolyInt::algorithmBlockTQ() {
           break;
         }
 
-        r = j.data()->poly().nfTail(*this);
+        r += j.data()->poly().nfTail(*this);
         if (r) {
           mReduction += r;
           j.data()->poly().pp();
@@ -801,8 +802,10 @@ std::cerr << "A" << std::endl;
 //           std::cerr << "AAA poly j - " << j.data()->poly() << std::endl;
           assert(j.data()->poly());
           j.data()->poly().reduction(w->poly());
-          if (j.data()->poly().isZero())
+          if (j.data()->poly().isZero()) {
+            ++mIsZeroNf;
             delete j.data();
+          }
           else
             insert(tmp, j.data());
           ++j;
@@ -1305,6 +1308,7 @@ void JanetPolyInt::algorithmTQ() {
     while(j && j.data()->poly().lm().degree() <= deg) {
       int r=j.data()->poly().nf(*this);
       if (j.data()->poly().isZero()) {
+        ++mIsZeroNf;
         std::cerr << "1 =0" << std::endl;
         delete j.data();
       }
-- 
2.43.0

