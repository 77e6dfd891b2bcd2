From daff501c4d0c48f1f94547de1bba0a5cb92beb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 01/25] fix: do not pass a null pointer to the allocator when
 an empty dynamic vector or matrix is destroyed or resized

---
 cml/matrix/dynamic_allocated.tpp | 5 +++--
 cml/vector/dynamic_allocated.tpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index ac3a5fb..a399c7c 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -110,7 +110,8 @@ matrix<E, dynamic<A>, BO, L>::~matrix()
     typename std::is_trivially_destructible<E>::type());
 
   auto allocator = allocator_type();
-  allocator_traits::deallocate(allocator, this->m_data, size_type(n));
+  if(this->m_data)
+    allocator_traits::deallocate(allocator, this->m_data, size_type(n));
 }
 
 /* Public methods: */
@@ -221,7 +222,7 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
       typename std::is_trivially_destructible<E>::type());
 
     /* Deallocate the old array: */
-    allocator_traits::deallocate(allocator, data, n_old);
+    if(data) allocator_traits::deallocate(allocator, data, n_old);
   } catch(...) {
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 3bd5c6f..0cc833d 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -98,7 +98,8 @@ template<class E, class A> vector<E, dynamic<A>>::~vector()
     typename std::is_trivially_destructible<E>::type());
 
   auto allocator = allocator_type();
-  allocator_traits::deallocate(allocator, this->m_data, size_type(n));
+  if(this->m_data)
+    allocator_traits::deallocate(allocator, this->m_data, size_type(n));
 }
 
 /* Public methods: */
@@ -194,7 +195,7 @@ vector<E, dynamic<A>>::resize_fast(int n)
       typename std::is_trivially_destructible<E>::type());
 
     /* Deallocate the old array: */
-    allocator_traits::deallocate(allocator, data, size);
+    if(data) allocator_traits::deallocate(allocator, data, size);
   } catch(...) {
     allocator_traits::deallocate(allocator, copy, n);
     throw;
-- 
2.43.0


From e01bedefeaae67df10971eb657ae9732bee2e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 02/25] fix: resizing a dynamic vector or matrix of non-trivial
 elements copied destroyed elements and left new ones unconstructed

---
 cml/matrix/dynamic_allocated.tpp | 46 +++++++++++++++++++++++---------
 cml/vector/dynamic_allocated.tpp | 46 +++++++++++++++++++++++---------
 2 files changed, 66 insertions(+), 26 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index a399c7c..3b928db 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -167,26 +167,36 @@ matrix<E, dynamic<A>, BO, L>::resize(int rows, int cols)
   /* Allocate the new array: */
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
+  pointer dst = copy;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, n_old,
-      typename std::is_trivially_destructible<E>::type());
-
     /* Copy elements to the new array if necessary: */
     if(data) {
       int to = std::min(n_old, n_new);
-      for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
+      for(pointer src = data; src < data + to; ++src, ++dst) {
         allocator_traits::construct(allocator, dst, *src);
       }
+    }
 
-      /* Deallocate the old array: */
-      allocator_traits::deallocate(allocator, data, n_old);
+    /* Construct the remaining elements if necessary: */
+    if(!std::is_trivially_default_constructible<E>::value) {
+      for(; dst < copy + n_new; ++dst) {
+        allocator_traits::construct(allocator, dst);
+      }
     }
   } catch(...) {
+    this->destruct(copy, int(dst - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
   }
 
+  /* Destruct elements if necessary: */
+  this->destruct(data, n_old,
+    typename std::is_trivially_destructible<E>::type());
+
+  /* Deallocate the old array: */
+  if(data) allocator_traits::deallocate(allocator, data, n_old);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_rows = rows;
@@ -216,18 +226,28 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
   /* Allocate the new array: */
   pointer data = this->m_data;
   pointer copy = allocator_traits::allocate(allocator, n_new);
+  pointer dst = copy;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, n_old,
-      typename std::is_trivially_destructible<E>::type());
-
-    /* Deallocate the old array: */
-    if(data) allocator_traits::deallocate(allocator, data, n_old);
+    /* Construct elements if necessary: */
+    if(!std::is_trivially_default_constructible<E>::value) {
+      for(; dst < copy + n_new; ++dst) {
+        allocator_traits::construct(allocator, dst);
+      }
+    }
   } catch(...) {
+    this->destruct(copy, int(dst - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n_new);
     throw;
   }
 
+  /* Destruct elements if necessary: */
+  this->destruct(data, n_old,
+    typename std::is_trivially_destructible<E>::type());
+
+  /* Deallocate the old array: */
+  if(data) allocator_traits::deallocate(allocator, data, n_old);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_rows = rows;
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index 0cc833d..c9e2431 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -148,26 +148,36 @@ vector<E, dynamic<A>>::resize(int n)
   pointer data = this->m_data;
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
+  pointer dst = copy;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, size,
-      typename std::is_trivially_destructible<E>::type());
-
     /* Copy elements to the new array if necessary: */
     if(data) {
       int to = std::min(size, n);
-      for(pointer src = data, dst = copy; src < data + to; ++src, ++dst) {
+      for(pointer src = data; src < data + to; ++src, ++dst) {
         allocator_traits::construct(allocator, dst, *src);
       }
+    }
 
-      /* Deallocate the old array: */
-      allocator_traits::deallocate(allocator, data, size);
+    /* Construct the remaining elements if necessary: */
+    if(!std::is_trivially_default_constructible<E>::value) {
+      for(; dst < copy + n; ++dst) {
+        allocator_traits::construct(allocator, dst);
+      }
     }
   } catch(...) {
+    this->destruct(copy, int(dst - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n);
     throw;
   }
 
+  /* Destruct elements if necessary: */
+  this->destruct(data, size,
+    typename std::is_trivially_destructible<E>::type());
+
+  /* Deallocate the old array: */
+  if(data) allocator_traits::deallocate(allocator, data, size);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_size = n;
@@ -189,18 +199,28 @@ vector<E, dynamic<A>>::resize_fast(int n)
   pointer data = this->m_data;
   int size = this->m_size;
   pointer copy = allocator_traits::allocate(allocator, n);
+  pointer dst = copy;
   try {
-    /* Destruct elements if necessary: */
-    this->destruct(data, size,
-      typename std::is_trivially_destructible<E>::type());
-
-    /* Deallocate the old array: */
-    if(data) allocator_traits::deallocate(allocator, data, size);
+    /* Construct elements if necessary: */
+    if(!std::is_trivially_default_constructible<E>::value) {
+      for(; dst < copy + n; ++dst) {
+        allocator_traits::construct(allocator, dst);
+      }
+    }
   } catch(...) {
+    this->destruct(copy, int(dst - copy),
+      typename std::is_trivially_destructible<E>::type());
     allocator_traits::deallocate(allocator, copy, n);
     throw;
   }
 
+  /* Destruct elements if necessary: */
+  this->destruct(data, size,
+    typename std::is_trivially_destructible<E>::type());
+
+  /* Deallocate the old array: */
+  if(data) allocator_traits::deallocate(allocator, data, size);
+
   /* Save the new array: */
   this->m_data = copy;
   this->m_size = n;
-- 
2.43.0


From 4e3ccf513dd3cf7304f4fea726c34b0198f0d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 03/25] fix: dynamic vector and matrix constructors leaked
 their storage when an element or size check threw

---
 cml/matrix/dynamic_allocated.h   |  4 +---
 cml/matrix/dynamic_allocated.tpp | 24 ++++++------------------
 cml/vector/dynamic_allocated.h   |  6 ++----
 cml/vector/dynamic_allocated.tpp | 18 ++++++------------
 4 files changed, 15 insertions(+), 37 deletions(-)

diff --git a/cml/matrix/dynamic_allocated.h b/cml/matrix/dynamic_allocated.h
index 931a95d..cce81de 100644
--- a/cml/matrix/dynamic_allocated.h
+++ b/cml/matrix/dynamic_allocated.h
@@ -155,9 +155,7 @@ class matrix<Element, dynamic<Allocator>, BasisOrient, Layout>
   matrix(RowsT rows, ColsT cols, const E0& e0, const Elements&... eN)
   // XXX Should be in matrix/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_rows(0)
-  , m_cols(0)
+  : matrix()
   {
     this->resize_fast(rows, cols);
     this->assign_elements(e0, eN...);
diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index 3b928db..b85f244 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -32,9 +32,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols)
 
 template<class E, class A, typename BO, typename L>
 matrix<E, dynamic<A>, BO, L>::matrix(const matrix_type& other)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(other);
 }
@@ -51,9 +49,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(matrix_type&& other)
 template<class E, class A, typename BO, typename L>
 template<class Sub>
 matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(sub);
 }
@@ -61,9 +57,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(const readable_matrix<Sub>& sub)
 template<class E, class A, typename BO, typename L>
 template<class Array, enable_if_array_t<Array>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
@@ -72,9 +66,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Array& array)
 template<class E, class A, typename BO, typename L>
 template<class Other, int R, int C>
 matrix<E, dynamic<A>, BO, L>::matrix(Other const (&array)[R][C])
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->assign(array);
 }
@@ -82,9 +74,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(Other const (&array)[R][C])
 template<class E, class A, typename BO, typename L>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Pointer& array)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
@@ -93,9 +83,7 @@ matrix<E, dynamic<A>, BO, L>::matrix(int rows, int cols, const Pointer& array)
 template<class E, class A, typename BO, typename L>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 matrix<E, dynamic<A>, BO, L>::matrix(const Pointer& array, int rows, int cols)
-: m_data(0)
-, m_rows(0)
-, m_cols(0)
+: matrix()
 {
   this->resize_fast(rows, cols);
   this->assign(array);
diff --git a/cml/vector/dynamic_allocated.h b/cml/vector/dynamic_allocated.h
index efc9775..c0c0d6e 100644
--- a/cml/vector/dynamic_allocated.h
+++ b/cml/vector/dynamic_allocated.h
@@ -115,8 +115,7 @@ class vector<Element, dynamic<Allocator>>
   vector(const E0& e0, const Elements&... eN)
   // XXX Should be in vector/dynamic_allocated.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_size(0)
+  : vector()
   {
     this->assign_elements(e0, eN...);
   }
@@ -134,8 +133,7 @@ class vector<Element, dynamic<Allocator>>
   vector(const readable_vector<Sub>& sub, const E0& e0, const Elements&... eN)
   // XXX Should be in vector/fixed_compiled.tpp, but VC++12 has
   // brain-dead out-of-line template argument matching...
-  : m_data(0)
-  , m_size(0)
+  : vector()
   {
     this->assign(sub, e0, eN...);
   }
diff --git a/cml/vector/dynamic_allocated.tpp b/cml/vector/dynamic_allocated.tpp
index c9e2431..806cd37 100644
--- a/cml/vector/dynamic_allocated.tpp
+++ b/cml/vector/dynamic_allocated.tpp
@@ -29,8 +29,7 @@ vector<E, dynamic<A>>::vector(Int size)
 
 template<class E, class A>
 vector<E, dynamic<A>>::vector(const vector_type& other)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(other);
 }
@@ -46,8 +45,7 @@ vector<E, dynamic<A>>::vector(vector_type&& other)
 template<class E, class A>
 template<class Sub>
 vector<E, dynamic<A>>::vector(const readable_vector<Sub>& sub)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(sub);
 }
@@ -55,8 +53,7 @@ vector<E, dynamic<A>>::vector(const readable_vector<Sub>& sub)
 template<class E, class A>
 template<class Array, enable_if_array_t<Array>*>
 vector<E, dynamic<A>>::vector(const Array& array)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(array);
 }
@@ -64,8 +61,7 @@ vector<E, dynamic<A>>::vector(const Array& array)
 template<class E, class A>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 vector<E, dynamic<A>>::vector(const Pointer& array, int size)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(size);
   this->assign(array);
@@ -74,8 +70,7 @@ vector<E, dynamic<A>>::vector(const Pointer& array, int size)
 template<class E, class A>
 template<class Pointer, enable_if_pointer_t<Pointer>*>
 vector<E, dynamic<A>>::vector(int size, const Pointer& array)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->resize_fast(size);
   this->assign(array);
@@ -84,8 +79,7 @@ vector<E, dynamic<A>>::vector(int size, const Pointer& array)
 template<class E, class A>
 template<class Other>
 vector<E, dynamic<A>>::vector(std::initializer_list<Other> l)
-: m_data(0)
-, m_size(0)
+: vector()
 {
   this->assign(l);
 }
-- 
2.43.0


From 76d5eae71bc58810ec02089d96a88e59b1dadd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 04/25] fix: resizing a dynamic matrix overflowed int when
 computing rows*cols

---
 cml/matrix/dynamic_allocated.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cml/matrix/dynamic_allocated.tpp b/cml/matrix/dynamic_allocated.tpp
index b85f244..c33b489 100644
--- a/cml/matrix/dynamic_allocated.tpp
+++ b/cml/matrix/dynamic_allocated.tpp
@@ -8,6 +8,8 @@
 #  error "matrix/dynamic_allocated.tpp not included correctly"
 #endif
 
+#include <limits>
+#include <stdexcept>
 #include <cml/common/exception.h>
 
 namespace cml {
@@ -138,6 +140,8 @@ matrix<E, dynamic<A>, BO, L>::resize(int rows, int cols)
 {
   cml_require(rows >= 0, std::invalid_argument, "rows < 0");
   cml_require(cols >= 0, std::invalid_argument, "cols < 0");
+  cml_require(cols == 0 || rows <= std::numeric_limits<int>::max() / cols,
+    std::length_error, "rows*cols too large");
 
   int n_old = this->m_rows * this->m_cols;
   int n_new = rows * cols;
@@ -197,6 +201,8 @@ matrix<E, dynamic<A>, BO, L>::resize_fast(int rows, int cols)
 {
   cml_require(rows >= 0, std::invalid_argument, "rows < 0");
   cml_require(cols >= 0, std::invalid_argument, "cols < 0");
+  cml_require(cols == 0 || rows <= std::numeric_limits<int>::max() / cols,
+    std::length_error, "rows*cols too large");
 
   int n_old = this->m_rows * this->m_cols;
   int n_new = rows * cols;
-- 
2.43.0


From c4c930d20856c44220e8b53de4860cb1ada74542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 05/25] fix: operator+= and operator-= resized a dynamic vector
 or matrix instead of rejecting an operand of another size

---
 cml/matrix/writable_matrix.tpp | 4 ++--
 cml/vector/writable_vector.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 078f119..e911a35 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -331,7 +331,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator+=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_plus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
@@ -350,7 +350,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::operator-=(const readable_matrix<ODT>& other) &
 {
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   detail::apply<binary_minus_t<DT, ODT>>(*this, other, layout_tag());
   return this->actual();
 }
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 7781a4f..b5e1031 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -309,7 +309,7 @@ DT&
 writable_vector<DT>::operator+=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_plus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
@@ -330,7 +330,7 @@ DT&
 writable_vector<DT>::operator-=(const readable_vector<ODT>& other) &
 {
   using op_type = binary_minus_t<DT, ODT>;
-  detail::check_or_resize(*this, other);
+  cml::check_same_size(*this, other);
   for(int i = 0; i < this->size(); ++i)
     this->put(i, op_type().apply(this->get(i), other.get(i)));
   return this->actual();
-- 
2.43.0


From d870fff06e7b677194eabf5d11bc41faceaede3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 06/25] fix: cross() of temporary dynamic vectors checked the
 size of the moved-from operands

---
 cml/vector/cross_node.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/vector/cross_node.tpp b/cml/vector/cross_node.tpp
index c5494a8..fa6601d 100644
--- a/cml/vector/cross_node.tpp
+++ b/cml/vector/cross_node.tpp
@@ -17,8 +17,8 @@ vector_cross_node<Sub1, Sub2>::vector_cross_node(Sub1 left, Sub2 right)
 : m_left(std::move(left))
 , m_right(std::move(right))
 {
-  cml::check_size(left, cml::int_c<3>());
-  cml::check_size(right, cml::int_c<3>());
+  cml::check_size(this->m_left, cml::int_c<3>());
+  cml::check_size(this->m_right, cml::int_c<3>());
   /* Note: this seems to be exception-safe since temporaries are stored by
    * value and references by reference.
    */
-- 
2.43.0


From b8f715f1cf5078a3ce59f201eb0f2be8bc13ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 07/25] fix: products over an empty inner dimension read past
 the end of the operands

---
 cml/matrix/matrix_product.tpp | 4 ++++
 cml/matrix/vector_product.tpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/cml/matrix/matrix_product.tpp b/cml/matrix/matrix_product.tpp
index 959737b..851a8a2 100644
--- a/cml/matrix/matrix_product.tpp
+++ b/cml/matrix/matrix_product.tpp
@@ -25,6 +25,10 @@ operator*(Sub1&& sub1, Sub2&& sub2)
 
   result_type M;
   detail::resize(M, array_rows_of(sub1), array_cols_of(sub2));
+  if(sub1.cols() == 0) {
+    M.zero();
+    return M;
+  }
   for(int i = 0; i < M.rows(); ++i) {
     for(int j = 0; j < M.cols(); ++j) {
       auto m = sub1(i, 0) * sub2(0, j);
diff --git a/cml/matrix/vector_product.tpp b/cml/matrix/vector_product.tpp
index e62e96f..e22056a 100644
--- a/cml/matrix/vector_product.tpp
+++ b/cml/matrix/vector_product.tpp
@@ -26,6 +26,10 @@ operator*(Sub1&& sub1, Sub2&& sub2)
 
   result_type v;
   detail::resize(v, array_rows_of(sub1));
+  if(sub2.size() == 0) {
+    v.zero();
+    return v;
+  }
   for(int i = 0; i < sub1.rows(); ++i) {
     auto m = sub1(i, 0) * sub2[0];
     for(int k = 1; k < sub2.size(); ++k) m += sub1(i, k) * sub2[k];
@@ -49,6 +53,10 @@ operator*(Sub1&& sub1, Sub2&& sub2)
 
   result_type v;
   detail::resize(v, array_cols_of(sub2));
+  if(sub1.size() == 0) {
+    v.zero();
+    return v;
+  }
   for(int j = 0; j < sub2.cols(); ++j) {
     auto m = sub1[0] * sub2(0, j);
     for(int k = 1; k < sub1.size(); ++k) m += sub1[k] * sub2(k, j);
-- 
2.43.0


From be6ad6860edca1fb989635d4a089a50829500242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 08/25] fix: trace() and determinant() of an empty matrix read
 past the end of its storage

---
 cml/matrix/detail/determinant.tpp | 1 +
 cml/matrix/readable_matrix.tpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cml/matrix/detail/determinant.tpp b/cml/matrix/detail/determinant.tpp
index 51e6bcc..3bfdb8d 100644
--- a/cml/matrix/detail/determinant.tpp
+++ b/cml/matrix/detail/determinant.tpp
@@ -113,6 +113,7 @@ determinant(const readable_matrix<Sub>& M, int_c<-1>)
 
   /* Use the small matrix determinant if possible: */
   switch(N) {
+    case 0: return value_type_trait_of_t<Sub>(1); break;
     case 2: return determinant(M, int_c<2>()); break;
     case 3: return determinant(M, int_c<3>()); break;
     case 4: return determinant(M, int_c<4>()); break;
diff --git a/cml/matrix/readable_matrix.tpp b/cml/matrix/readable_matrix.tpp
index a9aa7a2..5622c30 100644
--- a/cml/matrix/readable_matrix.tpp
+++ b/cml/matrix/readable_matrix.tpp
@@ -89,6 +89,7 @@ auto
 readable_matrix<DT>::trace() const -> value_type
 {
   cml::check_square(*this);
+  if(this->rows() == 0) return value_type(0);
   auto result = this->get(0, 0);
   for(int i = 1; i < this->rows(); ++i) result += this->get(i, i);
   return result;
-- 
2.43.0


From 13a6d0e790cf1b9868561a32a1658bd85c165600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 09/25] fix: printing an empty vector read past the end of its
 storage

---
 cml/util/vector_print.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/util/vector_print.tpp b/cml/util/vector_print.tpp
index 90cea17..fc0647b 100644
--- a/cml/util/vector_print.tpp
+++ b/cml/util/vector_print.tpp
@@ -15,7 +15,7 @@ template<class DT>
 inline std::ostream&
 operator<<(std::ostream& os, const readable_vector<DT>& v)
 {
-  os << v[0];
+  if(v.size() > 0) os << v[0];
   for(int i = 1; i < v.size(); ++i) os << " " << v[i];
   return os;
 }
-- 
2.43.0


From afe34ac15f929c2407db201267fc4191ff5e7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 10/25] fix: the pivoting matrix inverse could choose row 0 as
 the pivot again

---
 cml/matrix/detail/inverse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 78a651d..289ad4b 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -165,7 +165,7 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
   for(int i = 0; i < N; ++i) {
     /* Find the pivot */
     int row = 0, col = 0;
-    auto pivot = value_traits::fabs(M(0, 0));
+    auto pivot = value_type(0);
     for(int j = 0; j < N; ++j) {
       if(pivoted[j]) continue;
 
-- 
2.43.0


From b725261945d5e594b89d8adfafcb4c25f08714a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 11/25] fix: lu_pivot() compared the signed diagonal with the
 magnitudes below it

---
 cml/matrix/detail/lu.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/matrix/detail/lu.tpp b/cml/matrix/detail/lu.tpp
index fe3ae40..bfe6f6a 100644
--- a/cml/matrix/detail/lu.tpp
+++ b/cml/matrix/detail/lu.tpp
@@ -50,7 +50,7 @@ lu_pivot_inplace(writable_matrix<Sub>& M, OrderArray& order)
   for(int k = 0; k < N - 1; ++k) {
     /* Find the next pivot row: */
     int row = k;
-    value_type max = M(k, k);
+    value_type max = value_traits::fabs(M(k, k));
     for(int i = k + 1; i < N; ++i) {
       value_type mag = value_traits::fabs(M(i, k));
       if(mag > max) {
-- 
2.43.0


From 089b94c4872faa25428fbf5d25cc8e979386fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 12/25] fix: the pivoting matrix inverse undid its row swaps in
 the wrong order

---
 cml/matrix/detail/inverse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cml/matrix/detail/inverse.h b/cml/matrix/detail/inverse.h
index 289ad4b..cc661bb 100644
--- a/cml/matrix/detail/inverse.h
+++ b/cml/matrix/detail/inverse.h
@@ -209,8 +209,8 @@ inverse_pivot(writable_matrix<Sub>& M, RowIndexArray& row_index,
     }
   }
 
-  /* Swap columns if necessary */
-  for(int i = 0; i < N; ++i) {
+  /* Swap columns if necessary, in the reverse order of the row swaps */
+  for(int i = N - 1; i >= 0; --i) {
     if(row_index[i] == col_index[i]) continue;
 
     for(int j = 0; j < N; ++j)
-- 
2.43.0


From 39a1622c82c647f93a58c7d47dd10b4135269bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 13/25] fix: assigning an expression of another size read the
 destination's released elements

A dynamic vector or matrix was resized before the expression was evaluated, so
v = v.subvector(i) and M = transpose(M) (non-square) read past the end of the
new storage.
---
 cml/matrix/detail/check_or_resize.h | 25 +++++++++++++++++++++++++
 cml/matrix/writable_matrix.tpp      |  1 +
 cml/vector/detail/check_or_resize.h | 24 ++++++++++++++++++++++++
 cml/vector/writable_vector.tpp      |  1 +
 4 files changed, 51 insertions(+)

diff --git a/cml/matrix/detail/check_or_resize.h b/cml/matrix/detail/check_or_resize.h
index fabb7a0..5c6f0ce 100644
--- a/cml/matrix/detail/check_or_resize.h
+++ b/cml/matrix/detail/check_or_resize.h
@@ -26,6 +26,31 @@ check_or_resize(writable_matrix<Sub1>& left, const readable_matrix<Sub2>& right)
   left.actual().resize(right.rows(), right.cols());
 }
 
+/* assign_resized for a matrix that does not own its elements does nothing. */
+template<class Sub, class Other>
+inline bool
+assign_resized(const readable_matrix<Sub>&, const readable_matrix<Other>&)
+{
+  return false;
+}
+
+/* assign_resized for a matrix, left, that owns its elements and has a different
+ * size than right: right is evaluated before the elements of left are released,
+ * since right may be an expression that refers to left.
+ *
+ * @returns true if left was assigned.
+ */
+template<class Sub1, class Sub2>
+inline auto
+assign_resized(writable_matrix<Sub1>& left, const readable_matrix<Sub2>& right)
+  -> decltype(left.actual().resize_fast(0, 0), bool())
+{
+  if(left.rows() * left.cols() == 0) return false;
+  if(left.rows() == right.rows() && left.cols() == right.cols()) return false;
+  left.actual() = Sub1(right);
+  return true;
+}
+
 /** Ensure resizable matrix @c left is the same size as array @c right. */
 template<class Sub1, class Other, int Rows, int Cols>
 inline auto
diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index e911a35..78c2f94 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -417,6 +417,7 @@ template<class ODT>
 DT&
 writable_matrix<DT>::assign(const readable_matrix<ODT>& other)
 {
+  if(detail::assign_resized(*this, other)) return this->actual();
   detail::check_or_resize(*this, other);
   detail::copy(*this, other, layout_tag());
   return this->actual();
diff --git a/cml/vector/detail/check_or_resize.h b/cml/vector/detail/check_or_resize.h
index 216b711..46d61ee 100644
--- a/cml/vector/detail/check_or_resize.h
+++ b/cml/vector/detail/check_or_resize.h
@@ -95,6 +95,30 @@ check_or_resize(writable_vector<Sub>& left, const readable_vector<Other>& right)
   left.actual().resize(cml::array_size_of(right));
 }
 
+/* assign_resized for a vector that does not own its elements does nothing. */
+template<class Sub, class Other>
+inline bool
+assign_resized(const readable_vector<Sub>&, const readable_vector<Other>&)
+{
+  return false;
+}
+
+/* assign_resized for a vector, left, that owns its elements and has a different
+ * size than right: right is evaluated before the elements of left are released,
+ * since right may be an expression that refers to left.
+ *
+ * @returns true if left was assigned.
+ */
+template<class Sub, class Other>
+inline auto
+assign_resized(writable_vector<Sub>& left, const readable_vector<Other>& right)
+  -> decltype(left.actual().resize_fast(0), bool())
+{
+  if(left.size() == 0 || left.size() == right.size()) return false;
+  left.actual() = Sub(right);
+  return true;
+}
+
 /* check_or_resize for a read-only vector that verifies the size is
  * other.size() + sizeof(eN):
  */
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index b5e1031..6453e04 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -396,6 +396,7 @@ template<class ODT>
 DT&
 writable_vector<DT>::assign(const readable_vector<ODT>& other)
 {
+  if(detail::assign_resized(*this, other)) return this->actual();
   detail::check_or_resize(*this, other);
   for(int i = 0; i < this->size(); ++i) this->put(i, other.get(i));
   return this->actual();
-- 
2.43.0


From 12ffb60513a437b399f6df72a326460a0c23b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 14/25] fix: scaling a vector, matrix or quaternion by one of
 its own elements used the modified element

v *= v[i], M /= M(i,j) and q *= q[i] hold a reference to the scalar, which
changes once the loop reaches that element.
---
 cml/matrix/writable_matrix.tpp         | 6 ++++--
 cml/quaternion/writable_quaternion.tpp | 6 ++++--
 cml/vector/writable_vector.tpp         | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cml/matrix/writable_matrix.tpp b/cml/matrix/writable_matrix.tpp
index 78c2f94..005f17b 100644
--- a/cml/matrix/writable_matrix.tpp
+++ b/cml/matrix/writable_matrix.tpp
@@ -372,7 +372,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator*=(const ScalarT& v) &
 {
-  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s(v);  // v may be an element of this matrix.
+  detail::apply<binary_multiply_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
@@ -394,7 +395,8 @@ template<class ScalarT,
 DT&
 writable_matrix<DT>::operator/=(const ScalarT& v) &
 {
-  detail::apply<binary_divide_t<DT, ScalarT>>(*this, v, layout_tag());
+  const ScalarT s(v);  // v may be an element of this matrix.
+  detail::apply<binary_divide_t<DT, ScalarT>>(*this, s, layout_tag());
   return this->actual();
 }
 
diff --git a/cml/quaternion/writable_quaternion.tpp b/cml/quaternion/writable_quaternion.tpp
index 05cf0a5..3f23e53 100644
--- a/cml/quaternion/writable_quaternion.tpp
+++ b/cml/quaternion/writable_quaternion.tpp
@@ -389,7 +389,8 @@ DT&
 writable_quaternion<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s(v);  // v may be an element of this quaternion.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -412,7 +413,8 @@ DT&
 writable_quaternion<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
-  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), v));
+  const ScalarT s(v);  // v may be an element of this quaternion.
+  for(int i = 0; i < 4; ++i) this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 6453e04..211dbd5 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -352,8 +352,9 @@ DT&
 writable_vector<DT>::operator*=(const ScalarT& v) &
 {
   using op_type = binary_multiply_t<DT, ScalarT>;
+  const ScalarT s(v);  // v may be an element of this vector.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
@@ -374,8 +375,9 @@ DT&
 writable_vector<DT>::operator/=(const ScalarT& v) &
 {
   using op_type = binary_divide_t<DT, ScalarT>;
+  const ScalarT s(v);  // v may be an element of this vector.
   for(int i = 0; i < this->size(); ++i)
-    this->put(i, op_type().apply(this->get(i), v));
+    this->put(i, op_type().apply(this->get(i), s));
   return this->actual();
 }
 
-- 
2.43.0


From 5e8954cc46484995822eef45ff43167936102073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 15/25] fix: set() of a vector from its own elements read
 overwritten or released elements

---
 cml/vector/writable_vector.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cml/vector/writable_vector.tpp b/cml/vector/writable_vector.tpp
index 211dbd5..d107562 100644
--- a/cml/vector/writable_vector.tpp
+++ b/cml/vector/writable_vector.tpp
@@ -454,8 +454,10 @@ DT&
 writable_vector<DT>::assign_elements(const Es&... eN)
 {
   static const int N = int(sizeof...(eN));
+  const value_type elements[] = {value_type(eN)...};
+  /* Note: eN may refer to the elements of this vector. */
   detail::check_or_resize(*this, int_c<N>());
-  detail::assign_elements(*this, int_c<0>(), eN...);
+  for(int i = 0; i < N; ++i) this->put(i, elements[i]);
   return this->actual();
 }
 
-- 
2.43.0


From 10b7b415c54f380043fcb9e46f2f80fb1b0084de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 16/25] fix: random_unit() in a cone gives NaN when the random
 direction coincides with the axis

---
 cml/mathlib/random_unit.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cml/mathlib/random_unit.tpp b/cml/mathlib/random_unit.tpp
index c2f325f..2eeb208 100644
--- a/cml/mathlib/random_unit.tpp
+++ b/cml/mathlib/random_unit.tpp
@@ -68,6 +68,12 @@ random_unit(writable_vector<Sub1>& n, const readable_vector<Sub2>& d,
   using O_traits = scalar_traits<O_type>;
   using Oa_traits = scalar_traits<decltype(O - a)>;
 
+  /* If n and d coincide (to rounding), sin(O) is 0 and n is d: */
+  if(O_traits::sin(O) == O_type(0)) {
+    n = d;
+    return;
+  }
+
   /* Use slerp between d (t=0) and n (t=1) to find the unit vector n_a
    * (t=a/O) lying on the cone between d and n:
    */
-- 
2.43.0


From bdea5f6f45e47e7c6ef15ff327617ea1c50a98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 17/25] fix: reshaping an external matrix overflowed int when
 computing rows*cols

---
 cml/matrix/dynamic_external.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cml/matrix/dynamic_external.tpp b/cml/matrix/dynamic_external.tpp
index b9ce319..c04a642 100644
--- a/cml/matrix/dynamic_external.tpp
+++ b/cml/matrix/dynamic_external.tpp
@@ -6,6 +6,8 @@
 #  error "matrix/dynamic_external.tpp not included correctly"
 #endif
 
+#include <limits>
+
 namespace cml {
 
 /* dynamic_external 'structors: */
@@ -88,6 +90,8 @@ matrix<E, external<>, BO, L>::resize(int rows, int cols)
 {
   cml_require(rows >= 0, std::invalid_argument, "rows < 0");
   cml_require(cols >= 0, std::invalid_argument, "cols < 0");
+  cml_require(cols == 0 || rows <= std::numeric_limits<int>::max() / cols,
+    matrix_size_error, /**/);
   cml::check_linear_size(*this, rows * cols);
   this->m_rows = rows;
   this->m_cols = cols;
-- 
2.43.0


From 52bde210b018aa11274c8130da7e3f90c99f2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 18/25] fix: check every basis vector's size before setting the
 first one

---
 cml/mathlib/matrix/basis.tpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cml/mathlib/matrix/basis.tpp b/cml/mathlib/matrix/basis.tpp
index 48b8aa1..2ee7ac8 100644
--- a/cml/mathlib/matrix/basis.tpp
+++ b/cml/mathlib/matrix/basis.tpp
@@ -48,6 +48,10 @@ inline void
 matrix_set_basis_vectors_2D(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y)
 {
+  cml::check_linear_2D(m);
+  cml::check_size(x, int_c<2>());
+  cml::check_size(y, int_c<2>());
+
   matrix_set_x_basis_vector_2D(m, x);
   matrix_set_y_basis_vector_2D(m, y);
 }
@@ -86,6 +90,10 @@ inline void
 matrix_set_transposed_basis_vectors_2D(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y)
 {
+  cml::check_linear_2D(m);
+  cml::check_size(x, int_c<2>());
+  cml::check_size(y, int_c<2>());
+
   matrix_set_transposed_x_basis_vector_2D(m, x);
   matrix_set_transposed_y_basis_vector_2D(m, y);
 }
@@ -208,6 +216,11 @@ matrix_set_basis_vectors(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y,
   const readable_vector<SubZ>& z)
 {
+  cml::check_linear_3D(m);
+  cml::check_size(x, int_c<3>());
+  cml::check_size(y, int_c<3>());
+  cml::check_size(z, int_c<3>());
+
   matrix_set_x_basis_vector(m, x);
   matrix_set_y_basis_vector(m, y);
   matrix_set_z_basis_vector(m, z);
@@ -257,6 +270,11 @@ matrix_set_transposed_basis_vectors(writable_matrix<Sub1>& m,
   const readable_vector<SubX>& x, const readable_vector<SubY>& y,
   const readable_vector<SubZ>& z)
 {
+  cml::check_linear_3D(m);
+  cml::check_size(x, int_c<3>());
+  cml::check_size(y, int_c<3>());
+  cml::check_size(z, int_c<3>());
+
   matrix_set_transposed_x_basis_vector(m, x);
   matrix_set_transposed_y_basis_vector(m, y);
   matrix_set_transposed_z_basis_vector(m, z);
-- 
2.43.0


From c2341337d650b847cd5c076650e2b85601cb1878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 19/25] fix: check sizes before matrix_translation resets the
 matrix

---
 cml/mathlib/matrix/translation.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cml/mathlib/matrix/translation.tpp b/cml/mathlib/matrix/translation.tpp
index c0a6dad..7ec51e5 100644
--- a/cml/mathlib/matrix/translation.tpp
+++ b/cml/mathlib/matrix/translation.tpp
@@ -96,6 +96,7 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
+  cml::check_affine_2D(m);
   m.identity();
   matrix_set_translation_2D(m, e0, e1);
 }
@@ -104,6 +105,8 @@ template<class Sub1, class Sub2>
 inline void
 matrix_translation_2D(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 {
+  cml::check_size(v, int_c<2>());
+  cml::check_affine_2D(m);
   m.identity();
   matrix_set_translation_2D(m, v);
 }
@@ -172,6 +175,7 @@ inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, e0, e1, e2);
 }
@@ -180,6 +184,8 @@ template<class Sub1, class Sub2>
 inline void
 matrix_translation(writable_matrix<Sub1>& m, const readable_vector<Sub2>& v)
 {
+  cml::check_size_range(v, int_c<2>(), int_c<3>());
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, v);
 }
@@ -188,6 +194,7 @@ template<class Sub, class E0, class E1>
 inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
+  cml::check_affine_3D(m);
   m.identity();
   matrix_set_translation(m, e0, e1);
 }
-- 
2.43.0


From ecd29aa235d5a98e9395f23ff180d22f3e6a24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 20/25] fix: matrix rotation builders reset the matrix only
 once nothing can fail

---
 cml/mathlib/matrix/rotation.tpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 5e83395..6bf3ecb 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -58,10 +58,10 @@ matrix_rotation_align_2D(writable_matrix<Sub>& m,
 
   cml::check_linear_2D(m);
 
-  m.identity();
-
   vector<value_type, compiled<2>> x, y;
   orthonormal_basis_2D(align, x, y, normalize, order);
+
+  m.identity();
   matrix_set_basis_vectors_2D(m, x, y);
 }
 
@@ -254,14 +254,14 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     "axis must be 0, 1, or 2");
   cml::check_linear_3D(m);
 
-  /* Initialize: */
-  m.identity();
-
   int i, j, k;
   bool odd, repeat;
   cml::unpack_euler_order(order, i, j, k, odd, repeat);
   cml_require(!repeat, std::invalid_argument, "repeated axis not supported");
 
+  /* Initialize: */
+  m.identity();
+
   if(odd) {
     angle_0 = -angle_0;
     angle_1 = -angle_1;
@@ -388,10 +388,12 @@ matrix_rotation_align(writable_matrix<Sub>& m,
 
   using value_type = value_type_trait_of_t<Sub>;
 
-  m.identity();
+  cml::check_linear_3D(m);
 
   vector<value_type, compiled<3>> x, y, z;
   orthonormal_basis(align, reference, x, y, z, normalize, order);
+
+  m.identity();
   matrix_set_basis_vectors(m, x, y, z);
 }
 
-- 
2.43.0


From 67484e241b0031fac571627bc22e8221df38f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 21/25] fix: matrix_look_at and matrix_affine_transform check
 operands before writing

---
 cml/mathlib/matrix/transform.tpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cml/mathlib/matrix/transform.tpp b/cml/mathlib/matrix/transform.tpp
index 6af62c2..97937ee 100644
--- a/cml/mathlib/matrix/transform.tpp
+++ b/cml/mathlib/matrix/transform.tpp
@@ -29,14 +29,14 @@ matrix_look_at(writable_matrix<Sub>& m, const readable_vector<SubEye>& position,
 
   cml::check_affine_3D(m);
 
-  /* Initialize: */
-  m.identity();
-
   auto s = value_type(handedness == left_handed ? 1 : -1);
   auto z = s * (target - position).normalize();
   auto x = cross(up, z).normalize();
   auto y = cross(z, x);
 
+  /* Initialize: */
+  m.identity();
+
   matrix_set_transposed_basis_vectors(m, x, y, z);
   matrix_set_translation(m, -dot(position, x), -dot(position, y),
     -dot(position, z));
@@ -90,6 +90,7 @@ matrix_affine_transform(writable_matrix<Sub>& m,
   const readable_vector<TSub>& translation, bool normalize)
 {
   cml::check_affine_3D(m);
+  cml::check_size_range(translation, int_c<2>(), int_c<3>());
   if(normalize) {
     cml::matrix_rotation_axis_angle(m, cml::normalize(axis), angle);
   } else {
@@ -104,6 +105,7 @@ matrix_affine_transform(writable_matrix<Sub>& m,
   const readable_matrix<LSub>& linear, const readable_vector<TSub>& translation)
 {
   cml::check_affine_3D(m);
+  cml::check_size_range(translation, int_c<2>(), int_c<3>());
   cml::matrix_linear_transform(m, linear);
   cml::matrix_set_translation(m, translation);
 }
-- 
2.43.0


From 7b5c90e97e75ec65998288bfc9053f9ddb6469a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 22/25] fix: matrix_invert_RT copies the translation before it
 starts transposing

---
 cml/mathlib/matrix/invert.tpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cml/mathlib/matrix/invert.tpp b/cml/mathlib/matrix/invert.tpp
index 36eb83b..7307822 100644
--- a/cml/mathlib/matrix/invert.tpp
+++ b/cml/mathlib/matrix/invert.tpp
@@ -54,6 +54,9 @@ matrix_invert_RT(writable_matrix<Sub>& m)
   else if(R < C) M = R;  // Rectangular, col basis, e.g. 3x4
   else M = R - 1;        // Square, either, e.g. 4x4.
 
+  /* Copy the Mx1 translation (basis vector M): */
+  auto T = matrix_get_basis_vector_nD(m, M);
+
   /* Transpose the MxM rotation part of m in-place: */
   for(int i = 0; i < M; ++i) {
     for(int j = i + 1; j < M; ++j) {
@@ -64,10 +67,7 @@ matrix_invert_RT(writable_matrix<Sub>& m)
     }
   }
 
-  /* Negate the Mx1 translation (basis vector M) and multiply by the
-   * transposed rotation:
-   */
-  auto T = matrix_get_basis_vector_nD(m, M);
+  /* Negate the translation and multiply by the transposed rotation: */
   for(int i = 0; i < M; ++i) {
     auto e = m.basis_element(0, i) * T[0];
     for(int j = 1; j < M; ++j) e += m.basis_element(j, i) * T[j];
-- 
2.43.0


From 976b5e5afc20c7e726e67a4b82fa56f2165b4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 23/25] fix: scale, translation and skew builders read scalar
 arguments they had overwritten

---
 cml/mathlib/matrix/misc.tpp        |  7 +++++--
 cml/mathlib/matrix/scale.tpp       | 21 ++++++++++++++++-----
 cml/mathlib/matrix/translation.tpp | 26 ++++++++++++++++++++------
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/cml/mathlib/matrix/misc.tpp b/cml/mathlib/matrix/misc.tpp
index 3fd152b..6c68b7d 100644
--- a/cml/mathlib/matrix/misc.tpp
+++ b/cml/mathlib/matrix/misc.tpp
@@ -51,9 +51,12 @@ matrix_skew_symmetric_2D(writable_matrix<Sub1>& m, const Scalar& s)
 {
   cml::check_linear_2D(m);
 
+  /* Note: s may refer to an element of m. */
+  const Scalar e = s;
+
   m.zero();
-  m.set_basis_element(0, 1, s);
-  m.set_basis_element(1, 0, -s);
+  m.set_basis_element(0, 1, e);
+  m.set_basis_element(1, 0, -e);
 }
 
 }  // namespace cml
\ No newline at end of file
diff --git a/cml/mathlib/matrix/scale.tpp b/cml/mathlib/matrix/scale.tpp
index 3991414..8818dc1 100644
--- a/cml/mathlib/matrix/scale.tpp
+++ b/cml/mathlib/matrix/scale.tpp
@@ -22,9 +22,14 @@ matrix_scale_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
     "incompatible scalar types");
 
   cml::check_affine_2D(m);
+
+  /* Note: e0 and e1 may refer to elements of m. */
+  const E0 s0 = e0;
+  const E1 s1 = e1;
+
   m.identity();
-  m.set_basis_element(0, 0, e0);
-  m.set_basis_element(1, 1, e1);
+  m.set_basis_element(0, 0, s0);
+  m.set_basis_element(1, 1, s1);
 }
 
 template<class Sub1, class Sub2>
@@ -69,10 +74,16 @@ matrix_scale(writable_matrix<Sub>& m, const E0& e0, const E1& e1, const E2& e2)
     "incompatible scalar types");
 
   cml::check_affine_3D(m);
+
+  /* Note: e0, e1 and e2 may refer to elements of m. */
+  const E0 s0 = e0;
+  const E1 s1 = e1;
+  const E2 s2 = e2;
+
   m.identity();
-  m.set_basis_element(0, 0, e0);
-  m.set_basis_element(1, 1, e1);
-  m.set_basis_element(2, 2, e2);
+  m.set_basis_element(0, 0, s0);
+  m.set_basis_element(1, 1, s1);
+  m.set_basis_element(2, 2, s2);
 }
 
 template<class Sub1, class Sub2>
diff --git a/cml/mathlib/matrix/translation.tpp b/cml/mathlib/matrix/translation.tpp
index 7ec51e5..91abc08 100644
--- a/cml/mathlib/matrix/translation.tpp
+++ b/cml/mathlib/matrix/translation.tpp
@@ -16,17 +16,18 @@ namespace detail {
 /* Base case, set a single basis element (I,J): */
 template<int I, int J, class Sub, class E>
 inline void
-matrix_set_basis(writable_matrix<Sub>& m, const E& e)
+matrix_set_basis(writable_matrix<Sub>& m, E e)
 {
   m.set_basis_element(I, J, e);
 }
 
 /* Recursive case: set basis element (I,J) to e, then recursively set
- * (I,J+1):
+ * (I,J+1).  The elements are passed by value, since they may refer to
+ * elements of m:
  */
 template<int I, int J, class Sub, class E, class... Es>
 inline void
-matrix_set_basis(writable_matrix<Sub>& m, const E& e, const Es&... es)
+matrix_set_basis(writable_matrix<Sub>& m, E e, Es... es)
 {
   m.set_basis_element(I, J, e);
   matrix_set_basis<I, J + 1>(m, es...);
@@ -97,8 +98,12 @@ inline void
 matrix_translation_2D(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
   cml::check_affine_2D(m);
+  /* Note: e0 and e1 may refer to elements of m. */
+  const E0 t0 = e0;
+  const E1 t1 = e1;
+
   m.identity();
-  matrix_set_translation_2D(m, e0, e1);
+  matrix_set_translation_2D(m, t0, t1);
 }
 
 template<class Sub1, class Sub2>
@@ -176,8 +181,13 @@ matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1,
   const E2& e2)
 {
   cml::check_affine_3D(m);
+  /* Note: e0, e1 and e2 may refer to elements of m. */
+  const E0 t0 = e0;
+  const E1 t1 = e1;
+  const E2 t2 = e2;
+
   m.identity();
-  matrix_set_translation(m, e0, e1, e2);
+  matrix_set_translation(m, t0, t1, t2);
 }
 
 template<class Sub1, class Sub2>
@@ -195,8 +205,12 @@ inline void
 matrix_translation(writable_matrix<Sub>& m, const E0& e0, const E1& e1)
 {
   cml::check_affine_3D(m);
+  /* Note: e0 and e1 may refer to elements of m. */
+  const E0 t0 = e0;
+  const E1 t1 = e1;
+
   m.identity();
-  matrix_set_translation(m, e0, e1);
+  matrix_set_translation(m, t0, t1);
 }
 
 }  // namespace cml
-- 
2.43.0


From 2789f1f9c10256d97e1822c7349f5acd57e5fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 24/25] fix: euler derivatives of the odd orders had the wrong
 sign

---
 cml/mathlib/matrix/rotation.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cml/mathlib/matrix/rotation.tpp b/cml/mathlib/matrix/rotation.tpp
index 6bf3ecb..58af7bd 100644
--- a/cml/mathlib/matrix/rotation.tpp
+++ b/cml/mathlib/matrix/rotation.tpp
@@ -311,6 +311,13 @@ matrix_rotation_euler_derivatives(writable_matrix<Sub>& m, int axis, E0 angle_0,
     m.set_basis_element(k, j, s1 * c0c2 + s0s2);
     m.set_basis_element(k, k, 0.);
   }
+
+  /* The angles are negated for an odd order, so the derivatives are, too: */
+  if(odd) {
+    for(i = 0; i < 3; ++i) {
+      for(j = 0; j < 3; ++j) m.set_basis_element(i, j, -m.basis_element(i, j));
+    }
+  }
 }
 
 template<class Sub, class ESub>
-- 
2.43.0


From e0fa94708104fb989f89a7914e6dabcc1f9c3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 25/25] fix: the transpose node kept the storage shape of its
 operand

---
 cml/matrix/transpose_node.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cml/matrix/transpose_node.h b/cml/matrix/transpose_node.h
index 3ea2351..93deacb 100644
--- a/cml/matrix/transpose_node.h
+++ b/cml/matrix/transpose_node.h
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <cml/scalar/traits.h>
+#include <cml/storage/resize.h>
+#include <cml/storage/type_util.h>
 #include <cml/matrix/readable_matrix.h>
 
 namespace cml {
@@ -21,7 +23,6 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   using element_traits = typename sub_traits::element_traits;
   using value_type = typename sub_traits::value_type;
   using immutable_value = typename sub_traits::immutable_value;
-  using storage_type = typename sub_traits::storage_type;
   using size_tag = typename sub_traits::size_tag;
   using basis_tag = typename sub_traits::basis_tag;
   using layout_tag = typename sub_traits::layout_tag;
@@ -38,6 +39,11 @@ template<class Sub> struct matrix_traits<matrix_transpose_node<Sub>>
   /* Propagate the columns from the subexpression: */
   static const int array_cols = sub_traits::array_rows;
 
+  /* The storage of the subexpression, with the transposed shape: */
+  using sub_storage_type = typename sub_traits::storage_type;
+  using reshaped_type = reshape_storage_t<sub_storage_type, array_rows, array_cols>;
+  using storage_type = rebind_matrix_storage_t<reshaped_type>;
+
   /** Constant containing the matrix basis enumeration value. */
   static const basis_kind matrix_basis = basis_tag::value;
 
-- 
2.43.0

