From 0cd489f3ef3d00f4ec27fc592d8cf636289ca5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 01/34] fix: number of interior degrees of freedom of the
 second order BDM basis

The layout reserved dim*(k-1)*3 interior degrees of freedom per element,
but the elements have (k+1)*(k-1) (simplex) or k*(k-1) (cube).  The global
indices of the order-2 basis hence had gaps.
---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..db853e3 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -173,7 +173,7 @@ class BrezziDouglasMariniPreBasis :
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isSimplex() ? (k+1)*(k-1) : k*(k-1);
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From 7e10526d5520c7f86eae0591a874f6851b36560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:44 +0000
Subject: [PATCH 02/34] fix: partial derivatives of global-valued finite
 elements in three dimensions

The order of GlobalValuedLocalBasis::partial() was hard-wired to two
components, so that 3d elements could not be asked for partial derivatives.
---
 .../functionspacebases/globalvaluedlocalfiniteelement.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
index b9c62c3..683338d 100644
--- a/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
+++ b/dune/functions/functionspacebases/globalvaluedlocalfiniteelement.hh
@@ -298,7 +298,7 @@ namespace Dune::Functions::Impl
      * \param in Position where to evaluate the derivatives
      * \param[out] out The desired partial derivatives
      */
-    void partial(const std::array<unsigned int,2>& order,
+    void partial(const std::array<unsigned int,Traits::dimDomain>& order,
                  const typename Traits::DomainType& x,
                  std::vector<typename Traits::RangeType>& out) const
     {
-- 
2.43.0


From 3d9684e2460322fe46f525d9ef728eb2bf07cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:32 +0000
Subject: [PATCH 03/34] fix: interpolation into the cubic Hermite basis in one
 dimension

In 1d the derivative of a scalar function is a FieldVector<K,1>, which
squeezeTensor() turns into a plain number that can't be subscripted.
---
 dune/functions/functionspacebases/cubichermitebasis.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 79e5da6..7fa8072 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -476,8 +476,12 @@ namespace Dune::Functions
           auto x = refElement.position(i, dim);
           auto&& derivativeValue = df(x);
           out[i * (dim +1)] = f(x);
-          for (int d = 0; d < dim; ++d)
-            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+          // In 1d, squeezing the derivative may already result in a scalar
+          if constexpr (dim == 1)
+            out[i * (dim+1) + 1] = static_cast<C>(squeezeTensor(derivativeValue)) * (*averageVertexMeshSize_)[i];
+          else
+            for (int d = 0; d < dim; ++d)
+              out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
         }
 
         if constexpr (not reduced)
-- 
2.43.0


From 79d05e61b4ffdde5d5aa3954c2df56a2d3bdee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 04/34] fix: hybrid multi-indices of the Taylor-Hood basis

The last digit of a velocity index has to be the number of the velocity
component, but the number of the local shape function was used.
---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..2cf6867 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -262,7 +262,7 @@ protected:
       for (std::size_t i = 0; i<subTreeSize; ++i)
       {
         multiIndexPushFront(multiIndices[i], 0);
-        multiIndices[i].push_back(i);
+        multiIndices[i].push_back(child);
       }
       multiIndices += subTreeSize;
     }
-- 
2.43.0


From cbab0de7c21db5df48ec4525efe218cbaea57c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 05/34] fix: grid view of the Taylor-Hood basis after update()

update(gv) passed the new grid view to the sub-bases only, such that
gridView() still returned the old one.
---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 2cf6867..54891cf 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From 790687ec7d80abc4ce909eaeb99f44557f59c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 06/34] fix: container descriptors of flat powers of arrays and
 tuples

Flat merging of a static number of array descriptors called emplace_back()
on a std::array, and flat merging of a dynamic number of tuple descriptors
used a run-time value as template argument.  Both did not compile.
---
 .../containerdescriptors.hh                   | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..a93100a 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -348,9 +346,13 @@ template<class N, class... GrandChild>
 auto flatLexicographicN (N n, Tuple<GrandChild...> child)
 {
   constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i%m>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // A tuple of run-time size can't be described
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i%m>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
 }
 
 //! Concatenate descriptor n-times by flat interleaved merging wrt first digit
@@ -404,11 +406,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -417,9 +417,13 @@ template<class N, class... GrandChild>
 auto flatInterleavedN (N n, Tuple<GrandChild...> child)
 {
   constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i/n>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  // A tuple of run-time size can't be described
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i/N::value>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
 }
 
 } // end namespace Impl
-- 
2.43.0


From 89ff3c0bc0db12f6a1e32f3d682e308804ae2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 07/34] fix: ISTL vectors for descriptors with a single child

Class template argument deduction for BlockVector{v} with a single block
vector v copies v instead of creating a nested vector.
---
 dune/functions/backends/istlvectorfactory.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/backends/istlvectorfactory.hh b/dune/functions/backends/istlvectorfactory.hh
index 5df1bb2..021ce7d 100644
--- a/dune/functions/backends/istlvectorfactory.hh
+++ b/dune/functions/backends/istlvectorfactory.hh
@@ -39,8 +39,9 @@ struct ISTLVectorFactory
   template<class V, std::size_t n>
   auto operator() (const Array<V,n>& tree) const
   {
+    using W = decltype((*this)(tree[0]));
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{(*this)(tree[ii])...};
+      return Dune::BlockVector<W>{(*this)(tree[ii])...};
     }, std::make_index_sequence<n>());
   }
 
@@ -58,8 +59,9 @@ struct ISTLVectorFactory
   auto operator() (const UniformArray<V,n>& tree) const
   {
     auto node = (*this)(tree[0]);
+    using W = decltype(node);
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{((void)(ii),node)...};
+      return Dune::BlockVector<W>{((void)(ii),node)...};
     }, std::make_index_sequence<n>());
   }
 
-- 
2.43.0


From 282bc32a94bbaf722d9b5a590ba1fa1ccf2325fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:45 +0000
Subject: [PATCH 08/34] fix: insertion at the front of an OverflowArray

push_front() did not increase the size and overwrote all entries by the
first one.
---
 dune/functions/common/overflowarray.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..bdd8904 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -124,10 +124,8 @@ public:
    * This is an O(size()) operation.
    */
   void push_front(const value_type& t) {
-    assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
-    (*this)[0] = t;
+    push_back(t);
+    std::rotate(begin(), end()-1, end());
   }
 
   //! Returns a iterator pointing to the beginning of the OverflowArray.
-- 
2.43.0


From f5fad69f9b666269684cf24edb6379d8703b2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:45 +0000
Subject: [PATCH 09/34] fix: start position of a ReservedDeque

push_back() ignored the start position and the constructor from an
initializer list left it uninitialized.
---
 dune/functions/common/reserveddeque.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..8913d60 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -78,7 +78,8 @@ namespace Functions {
       first_(0)
     {}
 
-    ReservedDeque(std::initializer_list<T> const &l)
+    ReservedDeque(std::initializer_list<T> const &l) :
+      first_(0)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
       size_ = l.size();
@@ -107,7 +108,7 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_++) % n] = t;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From ff04b7dff278b1f5d0b51dfc73c42cc3c3f00ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:24 +0000
Subject: [PATCH 10/34] fix: copying an empty PolymorphicSmallObject

Copies of default constructed type-erased functions dereferenced a null
pointer.
---
 dune/functions/common/polymorphicsmallobject.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..4347cc6 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -179,7 +179,9 @@ private:
 
   void copyToWrappedObject(const PolymorphicSmallObject& other)
   {
-    if (other.bufferUsed())
+    if (not other)
+      p_ = nullptr;
+    else if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
     else
       p_ = other.p_->clone();
-- 
2.43.0


From 04e1467880eb9cc4148ec7c95b99734e3b8e331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:24 +0000
Subject: [PATCH 11/34] fix: failing copy assignment of a
 PolymorphicSmallObject

If the copy of the new object throws, the holder referred to the object
destroyed before, which was then destroyed again.
---
 dune/functions/common/polymorphicsmallobject.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 4347cc6..4b9d666 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -155,6 +155,8 @@ private:
         p_->~Base();
       else
         delete p_;
+      // Don't refer to the destroyed object, e.g. if a subsequent copy throws.
+      p_ = nullptr;
     }
   }
 
-- 
2.43.0


From 2d91f8df693bc5f27ecc491bd185984f0c245e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:24 +0000
Subject: [PATCH 12/34] fix: self move assignment of a PolymorphicSmallObject

Self move assignment, e.g. in std::swap(f,f), moved from the object that
was just destroyed.
---
 dune/functions/common/polymorphicsmallobject.hh | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 4b9d666..9fe4441 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -116,8 +116,11 @@ public:
   //! Move assignment from other PolymorphicSmallObject
   PolymorphicSmallObject& operator=(PolymorphicSmallObject&& other) noexcept
   {
-    destroyWrappedObject();
-    moveToWrappedObject(std::move(other));
+    if (&other!=this)
+    {
+      destroyWrappedObject();
+      moveToWrappedObject(std::move(other));
+    }
     return *this;
   }
 
@@ -166,11 +169,6 @@ private:
       p_ = other.p_->move(&buffer_);
     else
     {
-      // We don't need to check for &other_!=this, because you can't
-      // have an rvalue to *this and call it's assignment/constructor
-      // at the same time. (Despite trying to shoot yourself in the foot
-      // with std::move explicitly.)
-
       // Take ownership of allocated object
       p_ = other.p_;
 
-- 
2.43.0


From f988fb815326c26b40fdb6b0045ac3fffe4c3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 13/34] fix: makeDifferentiableFunctionFromCallables stores
 copies of named callables

It stored references to callables passed as lvalues, although the
wrapper is documented to copy the given functions; the result then
referred to destroyed objects.
---
 .../common/differentiablefunctionfromcallables.hh      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/differentiablefunctionfromcallables.hh b/dune/functions/common/differentiablefunctionfromcallables.hh
index b0d9447..ef4a05a 100644
--- a/dune/functions/common/differentiablefunctionfromcallables.hh
+++ b/dune/functions/common/differentiablefunctionfromcallables.hh
@@ -8,6 +8,8 @@
 #define DUNE_FUNCTIONS_COMMON_DIFFEREENTIONABEFUNCTIONFROMCALLABLES_HH
 
 
+#include <type_traits>
+
 #include <dune/common/typeutilities.hh>
 #include <dune/common/hybridutilities.hh>
 
@@ -61,7 +63,9 @@ public:
   using Derivative = DifferentiableFunction<DerivativeSignature, DerivativeTraits>;
 
   //! Constructor copying the given function
-  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0>
+  template<class FF,
+    disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0,
+    std::enable_if_t<std::is_constructible_v<F, FF>, int> = 0>
   DifferentiableFunctionFromCallables(FF&& f) :
     f_(std::forward<FF>(f))
   {}
@@ -164,10 +168,10 @@ private:
  * \returns Object modelling DifferentiableFunction interface
  */
 template<class Signature, template<class> class DerivativeTraits, class... F>
-DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>
+DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>
   makeDifferentiableFunctionFromCallables(const SignatureTag<Signature, DerivativeTraits>& signatureTag, F&&... f)
 {
-  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>(f...);
+  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>(std::forward<F>(f)...);
 }
 
 
-- 
2.43.0


From 3dbef8e4987c3f2bb105d1e34e54445e45507510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 14/34] fix: skip only integral_constant zeros in Polynomial
 evaluation

The condition was inverted: zeros known at compile time were added while
run-time coefficients were compared with an int, which does not compile
for, e.g., complex coefficients.
---
 dune/functions/analyticfunctions/polynomial.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/analyticfunctions/polynomial.hh b/dune/functions/analyticfunctions/polynomial.hh
index 8d03608..8429085 100644
--- a/dune/functions/analyticfunctions/polynomial.hh
+++ b/dune/functions/analyticfunctions/polynomial.hh
@@ -139,9 +139,9 @@ class Polynomial
   template <typename Coefficient>
   static void add(K& y, const Coefficient &c)
   {
-    if constexpr (!IsIntegralConstant<Coefficient>::value)
+    if constexpr (IsIntegralConstant<Coefficient>::value)
     {
-      if (c!=0)
+      if constexpr (Coefficient::value!=0)
         y += c;
     }
     else
-- 
2.43.0


From 616d249c5e26ab598cc607691b6978cc4411380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 15/34] fix: makePolynomial() from an initializer list with
 another coefficient type

As documented the result is a Polynomial<K,std::vector<C>>.
---
 dune/functions/analyticfunctions/polynomial.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/analyticfunctions/polynomial.hh b/dune/functions/analyticfunctions/polynomial.hh
index 8429085..a480763 100644
--- a/dune/functions/analyticfunctions/polynomial.hh
+++ b/dune/functions/analyticfunctions/polynomial.hh
@@ -280,7 +280,7 @@ auto makePolynomial(Coefficients coefficients)
 template<class K, class C>
 auto makePolynomial(std::initializer_list<C> coefficients)
 {
-  return Polynomial<K>(std::move(coefficients));
+  return Polynomial<K, std::vector<C>>(std::vector<C>(coefficients));
 }
 
 
-- 
2.43.0


From 6512c0f1d5942bb582f196534fb9d03d1fbd5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:10 +0000
Subject: [PATCH 16/34] fix: container descriptor of a periodic basis

It described the raw basis, i.e., containers created from it were larger
than the periodic basis.
---
 dune/functions/functionspacebases/periodicbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..ed31b65 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -125,7 +125,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return Dune::Functions::ContainerDescriptors::FlatVector(numIndices_);
   }
 
 private:
-- 
2.43.0


From 31fc3865ab1e98fd42d69ddf4db20bf4d24cae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 17/34] fix: identify chained index pairs in a periodic basis

Pairs sharing an index other than their smaller one were not merged
into one class. Form the transitive classes of the requested pairs.
---
 .../functionspacebases/periodicbasis.hh       | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index ed31b65..cf9ad6d 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -7,9 +7,9 @@
 #ifndef DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 #define DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 
+#include <algorithm>
 #include <utility>
 #include <type_traits>
-#include <limits>
 #include <set>
 #include <vector>
 
@@ -85,20 +85,26 @@ public:
   PeriodicIndexingTransformation(const RawPreBasis& rawPreBasis, const IndexPairSet& indexPairSet)
   {
     static_assert(RawPreBasis::maxMultiIndexSize==1, "PeriodicIndexingTransformation is only implemented for flat multi-indices");
-    std::size_t invalid = {std::numeric_limits<std::size_t>::max()};
-    mappedIdx_.resize(rawPreBasis.size(), invalid);
-    numIndices_ = 0;
-    std::size_t i = 0;
+    // Link each index to a smaller (or the same) index identified with it.
+    // Following the links leads to the smallest index of the class.
+    mappedIdx_.resize(rawPreBasis.size());
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = i;
+    auto smallestIdentified = [&](std::size_t i) {
+      while (mappedIdx_[i] != i)
+        i = mappedIdx_[i];
+      return i;
+    };
     for(const auto& [a, b] : indexPairSet)
     {
-      for(; i<=a; ++i)
-        if (mappedIdx_[i] == invalid)
-          mappedIdx_[i] = numIndices_++;
-      mappedIdx_[b] = mappedIdx_[a];
+      auto [first, second] = std::minmax({smallestIdentified(a), smallestIdentified(b)});
+      mappedIdx_[second] = first;
     }
-    for(; i<rawPreBasis.size(); ++i)
-      if (mappedIdx_[i] == invalid)
-        mappedIdx_[i] = numIndices_++;
+    // Consecutively enumerate the classes in the order of their smallest index.
+    // All links point to smaller indices that have already been replaced.
+    numIndices_ = 0;
+    for(std::size_t i=0; i<mappedIdx_.size(); ++i)
+      mappedIdx_[i] = (mappedIdx_[i] == i) ? numIndices_++ : mappedIdx_[mappedIdx_[i]];
   }
 
   template<class MultiIndex, class PreBasis>
-- 
2.43.0


From 2457ba433e186f66f5244124bd778ade732ee650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 18/34] fix: copy assignment of DefaultLocalView

The nodes of a bound tree may refer to the element stored in their local
view. The implicit copy assignment copied the nodes and hence left them
pointing to the element of the other local view. Rebuild and bind the tree
as in the copy constructor.
---
 .../functionspacebases/defaultlocalview.hh      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..8b14e95 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -10,6 +10,7 @@
 
 #include <tuple>
 #include <optional>
+#include <type_traits>
 
 #include <dune/common/concept.hh>
 #include <dune/common/hybridutilities.hh>
@@ -87,6 +88,22 @@ public:
       bind(other.element());
   }
 
+  /** \brief Deep copy assignment of the local view */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+    requires (std::is_move_assignable_v<Tree>)
+  {
+    // The nodes of a bound tree may refer to the element stored
+    // in their local view. Hence the tree has to be bound again.
+    globalBasis_ = other.globalBasis_;
+    tree_ = globalBasis_->preBasis().makeNode();
+    initializeTree(tree_);
+    if (other.bound())
+      bind(other.element());
+    else
+      unbind();
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From ba7f220b83736de052f85390b6dabe1b5b527d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 19/34] fix: assignment of transformed finite elements

The local basis stored in TransformedFiniteElementMixin points to the finite
element it belongs to. The implicit assignment let it point to the finite
element that was assigned from.
---
 .../functionspacebases/transformedfiniteelementmixin.hh    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..21f5460 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,13 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const& other)
+    {
+      // The local basis already points to this object and must not
+      // be replaced by the one that points to the other object.
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From 4c2a63140be64978605b66d42bc47c0389518f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:30 +0000
Subject: [PATCH 20/34] fix: copies of Argyris and cubic Hermite finite
 elements

The local interpolation stored a pointer to the mesh sizes stored in the
finite element. In a copy of the finite element it then referred to the
original finite element.
---
 dune/functions/functionspacebases/argyrisbasis.hh      | 6 +++---
 dune/functions/functionspacebases/cubichermitebasis.hh | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dune/functions/functionspacebases/argyrisbasis.hh b/dune/functions/functionspacebases/argyrisbasis.hh
index dd8a77f..0ef6772 100644
--- a/dune/functions/functionspacebases/argyrisbasis.hh
+++ b/dune/functions/functionspacebases/argyrisbasis.hh
@@ -470,7 +470,7 @@ namespace Dune::Functions
       template<class Element>
       void bind( Element const& element, std::array<D, 3>const& averageVertexMeshSize, std::bitset<3>const& edgeOrientation)
       {
-        averageVertexMeshSize_ = &averageVertexMeshSize;
+        averageVertexMeshSize_ = averageVertexMeshSize;
 
         auto geometry = element.geometry();
 
@@ -514,7 +514,7 @@ namespace Dune::Functions
           auto&& x = localVertices_[i];
           auto derivativeValue = squeezeTensor(df(x));
           auto hessianValue = squeezeTensor(Hf(x));
-          auto && h = (*averageVertexMeshSize_)[i];
+          auto && h = averageVertexMeshSize_[i];
 
           out[offset ] = f(x);
 
@@ -543,7 +543,7 @@ namespace Dune::Functions
       std::array<Dune::FieldVector<D, 2>, 3> globalNormals_;
       std::array<Dune::FieldVector<D, 2>, 3> localMidpoints_;
       std::array<Dune::FieldVector<D, 2>, 3> localVertices_;
-      std::array<D, 3> const* averageVertexMeshSize_;
+      std::array<D, 3> averageVertexMeshSize_;
       std::array<FunctionalDescriptor, size()> descriptors_;
     };
 
diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 7fa8072..117cce0 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -453,7 +453,7 @@ namespace Dune::Functions
       template<class Element>
       void bind( Element const &element, std::array<D, dim+1>const& averageVertexMeshSize)
       {
-        averageVertexMeshSize_ = &averageVertexMeshSize;
+        averageVertexMeshSize_ = averageVertexMeshSize;
       }
 
       /** \brief Evaluate a given function and its derivatives at the nodes
@@ -478,10 +478,10 @@ namespace Dune::Functions
           out[i * (dim +1)] = f(x);
           // In 1d, squeezing the derivative may already result in a scalar
           if constexpr (dim == 1)
-            out[i * (dim+1) + 1] = static_cast<C>(squeezeTensor(derivativeValue)) * (*averageVertexMeshSize_)[i];
+            out[i * (dim+1) + 1] = static_cast<C>(squeezeTensor(derivativeValue)) * averageVertexMeshSize_[i];
           else
             for (int d = 0; d < dim; ++d)
-              out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+              out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * averageVertexMeshSize_[i];
         }
 
         if constexpr (not reduced)
@@ -500,7 +500,7 @@ namespace Dune::Functions
       }
 
     protected:
-      std::array<D, dim+1> const* averageVertexMeshSize_;
+      std::array<D, dim+1> averageVertexMeshSize_;
       std::array<FunctionalDescriptor, size()> descriptors_;
     };
 
-- 
2.43.0


From 85c3569e95baf0676ede59f83028d29507e61460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:58 +0000
Subject: [PATCH 21/34] fix: derivative of an unbound local
 CoarseFunctionOnFineGridView

This dereferenced the empty optional holding the element.
---
 dune/functions/gridfunctions/coarsefunctiononfinegridview.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 8a64ebb..80be4aa 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -96,7 +96,7 @@ private:
       : element_(element)
       , localFunction_(localFunction)
       , coarseEntitySet_(coarseEntitySet)
-      , geometryInAncestor_(geometryInAncestor, *element_)
+      , geometryInAncestor_(element_ ? GeometryInAncestor(geometryInAncestor, *element_) : GeometryInAncestor())
     {}
 
     //! Bind to an element from the GridView
-- 
2.43.0


From c4919d90f0f242c7fa7293a0c1a2e77096e347d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:58 +0000
Subject: [PATCH 22/34] fix: copies of GeometryInAncestor and binding to an
 r-value

The coarse element of a copy was the stored fine element. The overload of
bind() for r-values did not return the coarse element.
---
 dune/functions/common/geometryinancestor.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From 57eed43ec4250fb5c78de3932f03bd1ee0260b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 23/34] fix: update of MorleyPreBasis

The element mapper was not updated. Thus the edge orientations were computed
for the old grid view.
---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..ea1628c 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(this->gridView());
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From bcdd946f67d14af3d6c30e29ad50081cfc21a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:34 +0000
Subject: [PATCH 24/34] fix: FunctionalDescriptor::isPartialDerivative() did
 not compile

---
 dune/functions/functionspacebases/functionaldescriptor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/functionaldescriptor.hh b/dune/functions/functionspacebases/functionaldescriptor.hh
index 5e67609..d150427 100644
--- a/dune/functions/functionspacebases/functionaldescriptor.hh
+++ b/dune/functions/functionspacebases/functionaldescriptor.hh
@@ -63,7 +63,7 @@ public:
   {
     for(auto i: Dune::range(dim))
     {
-      if (partialDerivativeOrder(i)>0)
+      if (partialDerivativeOrder_[i]>0)
         return true;
     }
     return false;
-- 
2.43.0


From 22efcdca3d21e4f2bfc7c90acb89cdf78aee02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:48 +0000
Subject: [PATCH 25/34] fix: functional descriptors of the 1d cubic Hermite
 basis

FunctionalDescriptor({1}) selects the constructor for normal derivatives
since {1} prefers the conversion to unsigned int.
---
 dune/functions/functionspacebases/cubichermitebasis.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 117cce0..3e86642 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -405,9 +405,9 @@ namespace Dune::Functions
         if constexpr (dim==1)
         {
           descriptors_[0] = FunctionalDescriptor();
-          descriptors_[1] = FunctionalDescriptor({1});
+          descriptors_[1] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
           descriptors_[2] = FunctionalDescriptor();
-          descriptors_[3] = FunctionalDescriptor({1});
+          descriptors_[3] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
         }
         if constexpr (dim==2)
         {
-- 
2.43.0


From 5cf4462ba81ff313910adda23781d4cd92508e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:26 +0000
Subject: [PATCH 26/34] fix: element iterator of SubDomainGridView for grids
 whose iterators return by value

This returned a reference to a temporary.
---
 dune/functions/common/subdomain.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/subdomain.hh b/dune/functions/common/subdomain.hh
index 0104252..e703b39 100644
--- a/dune/functions/common/subdomain.hh
+++ b/dune/functions/common/subdomain.hh
@@ -402,7 +402,8 @@ namespace Dune::Functions::Experimental {
         return *this;
       }
 
-      const Element& operator*() const
+      // The iterator of the host grid view may return the element by value
+      decltype(auto) operator*() const
       {
         return *hostIt_;
       }
-- 
2.43.0


From bbde7f989b66b21641a25b65ec6739dd37e1be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:00 +0000
Subject: [PATCH 27/34] fix: Brezzi-Douglas-Marini basis on a subdomain

The neighbor of an element may not be contained in the grid view. Then it
has no index. The Raviart-Thomas basis already takes care of this.
---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index db853e3..81e5cd9 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -120,7 +120,7 @@ namespace Impl {
 
         for (const auto& intersection : intersections(gv,cell))
         {
-          if (intersection.neighbor() && (is_->index(intersection.outside()) > myId))
+          if (intersection.neighbor() && gv.contains(intersection.outside()) && (is_->index(intersection.outside()) > myId))
             orient_[myId] |= (1 << intersection.indexInInside());
         }
       }
-- 
2.43.0


From 9c63bdc0201fb05cd9943f5c2686804226ac9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 28/34] fix: store the knot vector in the factory of B-spline
 bases

The factory captured the knot vector by reference, and built the basis
from a dangling reference if it outlived the knot vector, for example
with auto factory = bSpline({0,1,2}, 2).
---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9fba082..9be69fc 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -1290,7 +1290,7 @@ inline auto bSpline(const std::vector<double>& knotVector,
                     unsigned int order,
                     bool makeOpen = true)
 {
-  return [&knotVector, order, makeOpen](const auto& gridView) {
+  return [knotVector, order, makeOpen](const auto& gridView) {
     return BSplinePreBasis<std::decay_t<decltype(gridView)>>(gridView, knotVector, order, makeOpen);
   };
 }
-- 
2.43.0


From a537640d4a7918bc57613c1cdabb0819acfbd18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 29/34] fix: consecutive indices in the local keys of B-splines

The inner shape functions of a face are enumerated with sizes[j]-2
digits per direction. With sizes[j]-1 the indices had gaps, unlike
those of Qk elements that are documented to be used here.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9be69fc..73136cd 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -295,7 +295,7 @@ public:
 
       for (int j=dim-1; j>=0; j--)
         if (mIdx[j]>0 and mIdx[j]<sizes[j]-1)
-          index[i] = (sizes[j]-1)*index[i] + (mIdx[j]-1);
+          index[i] = (sizes[j]-2)*index[i] + (mIdx[j]-1);
     }
 
     // Set up entity and dof numbers for each (supported) dimension separately
-- 
2.43.0


From fb632eab373cdc01d6ed9cb7ea1af79e80a14441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 30/34] fix: copies of the B-spline local finite element

The copy constructor dropped the knot span, so the copy of a bound
local finite element, node or local view evaluated at uninitialized
knot spans and coordinates.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 73136cd..0b72dc3 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -389,8 +389,13 @@ public:
    */
   BSplineLocalFiniteElement(const BSplineLocalFiniteElement& other)
   : preBasis_(other.preBasis_),
-    localBasis_(preBasis_,*this)
-  {}
+    localBasis_(preBasis_,*this),
+    localCoefficients_(other.localCoefficients_),
+    currentKnotSpan_(other.currentKnotSpan_)
+  {
+    localBasis_.offset_ = other.localBasis_.offset_;
+    localBasis_.scaling_ = other.localBasis_.scaling_;
+  }
 
   /** \brief Bind LocalFiniteElement to a specific knot span of the spline patch
    *
-- 
2.43.0


From 0b7273d658ec8c6982128fb07318034f1fca782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:34 +0000
Subject: [PATCH 31/34] fix: B-spline bases with repeated knots

The constructor counted empty knot spans as elements, although knot
multiplicities are documented to be disregarded when comparing knots
and grid. With repeated knots it failed its assertion, and in two or more
dimensions it computed wrong element positions.
---
 dune/functions/functionspacebases/bsplinebasis.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 0b72dc3..5e7b915 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -605,8 +605,12 @@ public:
                      bool makeOpen = true)
   : gridView_(gridView)
   {
-    // \todo Detection of duplicate knots
-    std::fill(elements_.begin(), elements_.end(), knotVector.size()-1);
+    // The elements are the non-empty knot spans
+    unsigned int elements = 0;
+    for (std::size_t j=0; j+1<knotVector.size(); j++)
+      if (not (knotVector[j+1] < knotVector[j]+1e-8))
+        elements++;
+    std::fill(elements_.begin(), elements_.end(), elements);
 
     // Mediocre sanity check: we don't know the number of grid elements in each direction.
     // but at least we know the total number of elements.
-- 
2.43.0


From 0fb409265c65f7c0eb2fb2751ee36f049ee8c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:23 +0000
Subject: [PATCH 32/34] fix: dangling entity set in local coarse and fine grid
 functions

The local functions of CoarseFunctionOnFineGridView and
FineFunctionOnCoarseGridView referred to the entity set inside of the
wrapped function. This is destroyed in localFunction(derivative(f)),
where the wrapper of the derivative is a temporary. Store a copy, like
the local functions of the other grid functions store what they need.
---
 dune/functions/gridfunctions/coarsefunctiononfinegridview.hh | 2 +-
 dune/functions/gridfunctions/finefunctiononcoarsegridview.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 80be4aa..15adc9b 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -143,7 +143,7 @@ private:
   private:
     std::optional<Element> element_;
     RawLocalFunction localFunction_;
-    const CoarseEntitySet& coarseEntitySet_;
+    CoarseEntitySet coarseEntitySet_;
     GeometryInAncestor geometryInAncestor_;
   };
 
diff --git a/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh b/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
index c7836d4..570c6ea 100644
--- a/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
+++ b/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
@@ -239,7 +239,7 @@ private:
 
     std::optional<Element> element_;
     mutable RawLocalFunction localFunction_;
-    const FineEntitySet& fineEntitySet_;
+    FineEntitySet fineEntitySet_;
     bool forwardToFineFunction_ = false;
   };
 
-- 
2.43.0


From 99c8b497e293f40067106f28c0b3ca1e9951a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 33/34] fix: keep local views alive while their Python tree
 nodes are used

---
 dune/python/functions/globalbasis.hh | 2 +-
 dune/python/functions/tree.hh        | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 21ce47c..7e20e13 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -186,7 +186,7 @@ namespace Dune
       lv.def( "maxSize", [] ( LocalView &self ) -> int { return self.maxSize(); } );
 
       Functions::registerTree<Tree>(lv);
-      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); });
+      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); }, pybind11::keep_alive< 0, 1 >());
 
       cls.def( "localView", [] ( const GlobalBasis &self ) -> LocalView { return self.localView(); }, pybind11::keep_alive< 0, 1 >() );
       cls.def_property_readonly( "dimension", [] ( const GlobalBasis &self ) -> int { return self.dimension(); } );
diff --git a/dune/python/functions/tree.hh b/dune/python/functions/tree.hh
index ea73f5f..b02e213 100644
--- a/dune/python/functions/tree.hh
+++ b/dune/python/functions/tree.hh
@@ -14,6 +14,7 @@
 #include <dune/common/typetraits.hh>
 #include <dune/common/visibility.hh>
 
+#include <dune/common/shared_ptr.hh>
 #include <dune/common/typetree/childaccess.hh>
 #include <dune/common/typetree/nodeconcepts.hh>
 
@@ -61,7 +62,8 @@ template<typename Tree, std::size_t i>
 auto childAccessor()
 {
   return [](Tree& tree) {
-    return pybind11::cast(tree.template child(index_constant<i>{}));
+    // do not copy the child: it has to follow the binding of its local view
+    return pybind11::cast(Dune::stackobject_to_shared_ptr(tree.template child(index_constant<i>{})));
   };
 }
 
@@ -80,6 +82,7 @@ void registerTreeChildAccessor(pybind11::class_<Tree, std::shared_ptr<Tree>>& cl
   cls.def(
     "child",
     [accessors](Tree& tree, std::size_t i) { return accessors.at(i)(tree); },
+    pybind11::keep_alive<0, 1>(),
     pybind11::arg("i"));
 }
 
-- 
2.43.0


From 9048d775fecd0de9a6fddb4c322e6dfddaecfab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 34/34] fix: repeat the constructor's grid check when a
 pre-basis is updated

---
 .../brezzidouglasmarinibasis.hh               | 14 +++++++---
 .../hierarchicallagrangebasis.hh              | 26 +++++++++++++++++++
 ...rarchicallagrangewithelementbubblebasis.hh | 26 +++++++++++++++++++
 .../functionspacebases/nedelecbasis.hh        | 22 ++++++++++------
 .../functionspacebases/rannacherturekbasis.hh | 12 ++++++---
 .../functionspacebases/raviartthomasbasis.hh  | 20 +++++++++-----
 .../refinedlagrangebasis.hh                   | 23 ++++++++++++----
 7 files changed, 116 insertions(+), 27 deletions(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index 81e5cd9..fc23e90 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -195,15 +195,13 @@ public:
     Base(gv, dofLayout()),
     finiteElementMap_(gv)
   {
-    // There is no inherent reason why the basis shouldn't work for grids with more than one
-    // element types.  Somebody simply has to sit down and implement the missing bits.
-    if (gv.indexSet().types(0).size() > 1)
-      DUNE_THROW(Dune::NotImplemented, "Brezzi-Douglas-Marini basis is only implemented for grids with a single element type");
+    checkGridView(gv);
   }
 
   /* \brief Update the stored grid view, to be called if the grid has changed */
   void update (const GridView& gv)
   {
+    checkGridView(gv);
     Base::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -217,6 +215,14 @@ public:
   }
 
 protected:
+  static void checkGridView(const GridView& gv)
+  {
+    // There is no inherent reason why the basis shouldn't work for grids with more than one
+    // element types.  Somebody simply has to sit down and implement the missing bits.
+    if (gv.indexSet().types(0).size() > 1)
+      DUNE_THROW(Dune::NotImplemented, "Brezzi-Douglas-Marini basis is only implemented for grids with a single element type");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/hierarchicallagrangebasis.hh b/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
index 28bc78b..cd260d0 100644
--- a/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
+++ b/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
@@ -51,6 +51,19 @@ namespace Dune {
     public:
       HierarchicalLagrangePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) -> std::size_t { return gt.isVertex() ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
@@ -68,6 +81,19 @@ namespace Dune {
     public:
       HierarchicalLagrangePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) -> std::size_t { return (gt.isVertex() || gt.isLine()) ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
diff --git a/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh b/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
index b6b225c..0274035 100644
--- a/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
+++ b/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
@@ -49,6 +49,19 @@ namespace Dune {
     public:
       HierarchicalLagrangeWithElementBubblePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) { return (gt.isVertex() || gt.dim() == GV::dimension) ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
@@ -66,6 +79,19 @@ namespace Dune {
     public:
       HierarchicalLagrangeWithElementBubblePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) { return (gt.dim() <= 1 || gt.dim() == GV::dimension) ? 1 : 0; })
+      {
+        checkGridView(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkGridView(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+      static void checkGridView (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
diff --git a/dune/functions/functionspacebases/nedelecbasis.hh b/dune/functions/functionspacebases/nedelecbasis.hh
index d58687d..c5e4ca5 100644
--- a/dune/functions/functionspacebases/nedelecbasis.hh
+++ b/dune/functions/functionspacebases/nedelecbasis.hh
@@ -169,14 +169,7 @@ public:
     if (kind!=1)
       DUNE_THROW(NotImplemented, "Only Nedelec elements of the first kind are implemented!");
 
-    // There is no inherent reason why the basis shouldn't work for grids with more than two
-    // element types.  Somebody simply has to sit down and implement the missing bits.
-    if (gv.indexSet().types(0).size() > 2)
-      DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex and cube elements");
-
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube())
-        DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex or cube elements.");
+    checkGridView(gv);
 
     if (order>1)
       DUNE_THROW(NotImplemented, "Only first-order elements are implemented");
@@ -188,6 +181,7 @@ public:
   /** \brief Update the stored grid view, to be called if the grid has changed */
   void update (const GridView& gv)
   {
+    checkGridView(gv);
     LeafPreBasisMapperMixin<GV>::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -201,6 +195,18 @@ public:
   }
 
 protected:
+  static void checkGridView(const GridView& gv)
+  {
+    // There is no inherent reason why the basis shouldn't work for grids with more than two
+    // element types.  Somebody simply has to sit down and implement the missing bits.
+    if (gv.indexSet().types(0).size() > 2)
+      DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex and cube elements");
+
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube())
+        DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex or cube elements.");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/rannacherturekbasis.hh b/dune/functions/functionspacebases/rannacherturekbasis.hh
index de41d63..8786373 100644
--- a/dune/functions/functionspacebases/rannacherturekbasis.hh
+++ b/dune/functions/functionspacebases/rannacherturekbasis.hh
@@ -73,9 +73,7 @@ public:
   RannacherTurekPreBasis(const GridView& gv) :
     gridView_(gv)
   {
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube())
-        DUNE_THROW(Dune::NotImplemented, "Rannacher-Turek or Crouzeix-Raviart elements are only implemented for grids with simplex or cube elements.");
+    checkGridView(gv);
   }
 
   //! Initialize the global indices
@@ -91,6 +89,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    checkGridView(gv);
     gridView_ = gv;
   }
 
@@ -129,6 +128,13 @@ public:
   }
 
 protected:
+  static void checkGridView (const GridView& gv)
+  {
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube())
+        DUNE_THROW(Dune::NotImplemented, "Rannacher-Turek or Crouzeix-Raviart elements are only implemented for grids with simplex or cube elements.");
+  }
+
   GridView gridView_;
 };
 
diff --git a/dune/functions/functionspacebases/raviartthomasbasis.hh b/dune/functions/functionspacebases/raviartthomasbasis.hh
index 033ca48..48b61a2 100644
--- a/dune/functions/functionspacebases/raviartthomasbasis.hh
+++ b/dune/functions/functionspacebases/raviartthomasbasis.hh
@@ -293,18 +293,13 @@ public:
     Base(gv, dofLayout()),
     finiteElementMap_(gv)
   {
-    // Currently there are some unresolved bugs with hybrid grids and higher order Raviart-Thomas elements
-    if (gv.indexSet().types(0).size() > 1 and k>0)
-      DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas basis with index k>0 is only implemented for grids with a single element type");
-
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube() && !type.isPyramid() && !type.isPrism())
-        DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas elements are only implemented for grids with simplex, cube, pyramid or prism elements.");
+    checkGridView(gv);
   }
 
   /** \brief Update the stored grid view, to be called if the grid has changed */
   void update(const GridView& gv)
   {
+    checkGridView(gv);
     Base::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -318,6 +313,17 @@ public:
   }
 
 protected:
+  static void checkGridView(const GridView& gv)
+  {
+    // Currently there are some unresolved bugs with hybrid grids and higher order Raviart-Thomas elements
+    if (gv.indexSet().types(0).size() > 1 and k>0)
+      DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas basis with index k>0 is only implemented for grids with a single element type");
+
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube() && !type.isPyramid() && !type.isPrism())
+        DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas elements are only implemented for grids with simplex, cube, pyramid or prism elements.");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/refinedlagrangebasis.hh b/dune/functions/functionspacebases/refinedlagrangebasis.hh
index c793b5f..190ba02 100644
--- a/dune/functions/functionspacebases/refinedlagrangebasis.hh
+++ b/dune/functions/functionspacebases/refinedlagrangebasis.hh
@@ -69,6 +69,16 @@ class RefinedLagrangePreBasis :
         "Refined basis not implemented for higher-order Lagrange (k>=2) elements.");
   }
 
+  // the basis is only implemented for simplex elements
+  static void checkGridView (const GV& gv)
+  {
+    for (auto gt : gv.indexSet().types(0)) {
+      if (!gt.isSimplex())
+        DUNE_THROW(Dune::NotImplemented,
+          "Refined Lagrange basis only implemented for simplex grids.");
+    }
+  }
+
 public:
 
   //! The grid view that the FE basis is defined on
@@ -86,11 +96,14 @@ public:
   RefinedLagrangePreBasis (const GridView& gv)
     : Base(gv, dofLayout())
   {
-    for (auto gt : gv.indexSet().types(0)) {
-      if (!gt.isSimplex())
-        DUNE_THROW(Dune::NotImplemented,
-          "Refined Lagrange basis only implemented for simplex grids.");
-    }
+    checkGridView(gv);
+  }
+
+  //! Update the stored grid view, to be called if the grid has changed
+  void update (const GridView& gv)
+  {
+    checkGridView(gv);
+    Base::update(gv);
   }
 
   //! Create tree node
-- 
2.43.0

