From 7b84b63a2f71903fd93820c13949748d05b84d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 01/41] fix: keep the operation's state when an elementwise
 expression is distributed

Redistribution and localisation of Unary, Binary and Ternary expression
blocks default-constructed the operation, so that e.g. clip() and
user-supplied functions lost their parameters on distributed views.
---
 src/ovxx/expr/binary.hpp    |  3 +-
 src/ovxx/expr/ternary.hpp   |  3 +-
 src/ovxx/expr/transform.hpp | 61 +++++++++++++++++++++++++++++++++++++
 src/ovxx/expr/unary.hpp     |  2 +-
 4 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/expr/binary.hpp b/src/ovxx/expr/binary.hpp
index bb4b930..3bfd954 100644
--- a/src/ovxx/expr/binary.hpp
+++ b/src/ovxx/expr/binary.hpp
@@ -289,7 +289,8 @@ get_local_block(expr::Binary<Operation, Arg1, Arg2, true> const &block)
 		       typename distributed_local_block<Arg2>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()));
 }
 
diff --git a/src/ovxx/expr/ternary.hpp b/src/ovxx/expr/ternary.hpp
index fef5ce6..57386fd 100644
--- a/src/ovxx/expr/ternary.hpp
+++ b/src/ovxx/expr/ternary.hpp
@@ -288,7 +288,8 @@ get_local_block(Ternary<O, B1, B2, B3, true> const &block)
 		  true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()),
 		    get_local_block(block.arg3()));
 }
diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index b2985c1..c57a82c 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -28,6 +28,23 @@ template <typename F,
 typename return_type<F, Ternary<O, B1, B2, B3, E> const>::type
 combine(F const &, Ternary<O, B1, B2, B3, E> const &);
 
+template <typename F,
+	  template <typename, typename, typename> class O,
+	  typename B1, typename B2, typename B3>
+typename return_type<F, Ternary<O, B1, B2, B3, true> const>::type
+combine(F const &, Ternary<O, B1, B2, B3, true> const &);
+
+template <typename F,
+	  template <typename, typename> class O,
+	  typename B1, typename B2>
+typename return_type<F, Binary<O, B1, B2, true> const>::type
+combine(F const &, Binary<O, B1, B2, true> const &);
+
+template <typename F,
+	  template <typename> class O, typename B>
+typename return_type<F, Unary<O, B, true> const>::type
+combine(F const &, Unary<O, B, true> const &);
+
 template <typename F,
 	  template <typename, typename, typename> class O,
 	  typename B1, typename B2, typename B3, bool E>
@@ -140,6 +157,21 @@ combine(F const &func, Binary<O, B1, B2, E> const &block)
 		    combine(func, block.arg2()));
 }
 
+template <typename F,
+	  template <typename, typename> class O,
+	  typename B1, typename B2>
+typename return_type<F, Binary<O, B1, B2, true> const>::type
+combine(F const &func, Binary<O, B1, B2, true> const &block)
+{
+  typedef typename
+    return_type<F, Binary<O, B1, B2, true> const>::type
+    block_type;
+
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
+		    combine(func, block.arg2()));
+}
+
 template <typename F,
 	  template <typename, typename> class O,
 	  typename B1, typename B2, bool E>
@@ -186,6 +218,22 @@ combine(F const &func, Ternary<O, B1, B2, B3, E> const &block)
 		    combine(func, block.arg3()));
 }
 
+template <typename F,
+	  template <typename, typename, typename> class O,
+	  typename B1, typename B2, typename B3>
+typename return_type<F, Ternary<O, B1, B2, B3, true> const>::type
+combine(F const &func, Ternary<O, B1, B2, B3, true> const &block)
+{
+  typedef typename
+    return_type<F, Ternary<O, B1, B2, B3, true> const>::type
+    block_type;
+
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
+		    combine(func, block.arg2()),
+		    combine(func, block.arg3()));
+}
+
 template <typename F,
 	  template <typename, typename, typename> class O,
 	  typename B1, typename B2, typename B3, bool E>
@@ -240,6 +288,19 @@ combine(F const &func, Unary<O, B, E> const &block)
   return block_type(combine(func, block.arg()));
 }
 
+template <typename F,
+	  template <typename> class O, typename B>
+typename return_type<F, Unary<O, B, true> const>::type
+combine(F const &func, Unary<O, B, true> const &block)
+{
+  typedef typename
+    return_type<F, Unary<O, B, true> const>::type
+    block_type;
+
+  return block_type(block.operation(),
+		    combine(func, block.arg()));
+}
+
 template <typename F,
 	  template <typename> class O, typename B, bool E>
 void
diff --git a/src/ovxx/expr/unary.hpp b/src/ovxx/expr/unary.hpp
index dceecec..fad0b18 100644
--- a/src/ovxx/expr/unary.hpp
+++ b/src/ovxx/expr/unary.hpp
@@ -199,7 +199,7 @@ get_local_block(expr::Unary<O, B, true> const &block)
   typedef expr::Unary<O, typename distributed_local_block<B>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg()));
+  return block_type(block.operation(), get_local_block(block.arg()));
 }
 
 template <template <typename> class O, typename B>
-- 
2.43.0


From 8e00c799b66250569c2d4b436a4b17ffd81f4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 02/41] fix: allow unary expressions nested in distributed
 expressions

apply() was not declared before its use in the Binary overload, so that
an expression such as sin(b) + c did not compile for distributed views.
---
 src/ovxx/expr/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index c57a82c..f1fcab5 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -45,6 +45,11 @@ template <typename F,
 typename return_type<F, Unary<O, B, true> const>::type
 combine(F const &, Unary<O, B, true> const &);
 
+template <typename F,
+	  template <typename> class O, typename B, bool E>
+void
+apply(F const &, Unary<O, B, E> const &);
+
 template <typename F,
 	  template <typename, typename, typename> class O,
 	  typename B1, typename B2, typename B3, bool E>
-- 
2.43.0


From 8763b7f3847bb8348d11dea2fa1983b8c20b9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 03/41] fix: let processors outside a replicated map's set
 query it like any other map

Map answers queries for no_subblock with an empty domain; Replicated_map
failed a precondition, so e.g. assigning a generator expression to a
vector replicated on some of the processors aborted the others.
---
 src/vsip/impl/replicated_map.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..0468d0f 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -10,6 +10,7 @@
 #define vsip_impl_replicated_map_hpp_
 
 #include <ovxx/vector_iterator.hpp>
+#include <ovxx/domain_utils.hpp>
 #include <ovxx/parallel/service.hpp>
 #include <ovxx/parallel/map_traits.hpp>
 #include <ovxx/parallel/scalar_map.hpp>
@@ -143,28 +144,42 @@ public:
   }
 
   length_type impl_num_patches(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return 1;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == no_subblock ? 0 : 1;
+  }
 
   void impl_apply(Domain<D> const& dom) VSIP_NOTHROW
   { dom_ = dom;}
 
   template <dimension_type D1>
   Domain<D1> impl_subblock_domain(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return dom_;}
+  {
+    OVXX_PRECONDITION(sb == 0 || sb == no_subblock);
+    return sb == no_subblock ? ovxx::empty_domain<D1>() : dom_;
+  }
 
   template <dimension_type D1>
   ovxx::Length<D1> impl_subblock_extent(index_type sb) const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0); return extent(dom_);}
+  { return extent(this->template impl_subblock_domain<D1>(sb));}
 
   template <dimension_type D1>
   Domain<D1> impl_global_domain(index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    if (sb == no_subblock) return ovxx::empty_domain<D1>();
+    OVXX_PRECONDITION(sb == 0 && patch == 0);
+    return dom_;
+  }
 
   template <dimension_type D1>
   Domain<D1> impl_local_domain (index_type sb, index_type patch)
     const VSIP_NOTHROW
-  { OVXX_PRECONDITION(sb == 0 && patch == 0); return dom_;}
+  {
+    if (sb == no_subblock) return ovxx::empty_domain<D1>();
+    OVXX_PRECONDITION(sb == 0 && patch == 0);
+    return dom_;
+  }
 
   index_type impl_global_from_local_index(dimension_type /*d*/, index_type sb,
 					  index_type idx)
-- 
2.43.0


From 7edaab18adf9c187f2f556965bdaa4b2cd41f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 04/41] fix: a row or column of a replicated matrix stays on
 the matrix's processors

sliced_map ignored the processor set of a Replicated_map, so that row()
and col() of a matrix replicated on some of the processors claimed that
all processors hold the data.
---
 src/ovxx/expr/sliced.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index cad73b4..f0899ee 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -30,7 +30,8 @@ template <dimension_type D, dimension_type S>
 struct sliced_map<Replicated_map<D>, S>
 {
   typedef Replicated_map<D - 1> type;
-  static type convert_map(Replicated_map<D> const&, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type D, dimension_type S>
@@ -78,7 +79,8 @@ template <dimension_type D, dimension_type S1, dimension_type S2>
 struct sliced2_map<Replicated_map<D>, S1, S2>
 {
   typedef Replicated_map<D - 2> type;
-  static type convert_map(Replicated_map<D> const&, index_type, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type S1, dimension_type S2>
-- 
2.43.0


From 0f9f79411fcb0d8b9e333f30c1907e6dc5663bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 05/41] fix: sum large distributed or strided float views
 element by element

The special case for more than 4096 single-precision elements read the
operand through a raw pointer, ignoring its stride and that a distributed
operand holds only part of the elements locally.
---
 src/ovxx/reductions/reductions.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..3a24d59 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -280,24 +280,19 @@ struct Evaluator<op::reduce<R>, be::generic,
       length_type const last_subblock_size = length % max_length ?
         length % max_length : max_length;
 
-      vsip::dda::Data<B, vsip::dda::in> data(a);
-
-      typename B::value_type result = 0;
+      typedef typename B::value_type V;
+      typename R<V>::accum_type result = R<V>::initial();
       index_type sb = 0;
-      for (; sb < subblocks - 1; ++sb)
+      for (; sb < subblocks; ++sb)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+        length_type const size =
+          sb == subblocks - 1 ? last_subblock_size : max_length;
+        typename R<V>::accum_type state = R<V>::initial();
+        for (index_type i = 0; i < size; ++i)
+          state = R<V>::update(state, a.get(sb * max_length + i));
+        result += state;
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
-
-      // Partial sums are accumlated in the view's natural type, even
-      // for magnitude-of-squared values where the imaginary part is zero.
-      // The result type is real in those cases, so we extract the desired
-      // part depending on the type being returned.
-      extract<typename B::value_type, T>::apply(result, r);
-
-      if (is_mean_based<R>::value)
-        r /= length;
+      r = R<V>::value(result, length);
     }
   }
 };
-- 
2.43.0


From 878b6ef30f7146df379f1aa8ac7db153c23fe7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 06/41] fix: let index queries reach the map and the block they
 ask about

block_patch_from_global_index called the subblock query, replicated maps
had no patch query, and global_from_local_index passed a view where a block
was expected.
---
 src/ovxx/parallel/support.hpp    | 2 +-
 src/vsip/impl/parallel.hpp       | 2 +-
 src/vsip/impl/replicated_map.hpp | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index ee91bde..8aa460f 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -276,7 +276,7 @@ typename ovxx::enable_if<ovxx::is_view_type<V>::value, index_type>::type
 global_from_local_index(V const &view, dimension_type dim,
 			index_type sb, index_type idx)
 {
-  return ovxx::parallel::block_global_from_local_index(view, dim, sb, idx);
+  return ovxx::parallel::block_global_from_local_index(view.block(), dim, sb, idx);
 }
 
 /// Determine VIEW's global index corresponding to local index L_IDX
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index 0468d0f..d9ef339 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -195,6 +195,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From 3a701f5a93fef55a2215b01f77712a980a2af329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 07/41] fix: write data received for a non-dense
 block-distributed vector to the block

The block-vector assignment received into a copy of the local block if that
was not dense (such as a row of a column-major matrix), and never copied it
back.
---
 src/ovxx/parallel/assign_block_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/parallel/assign_block_vector.hpp b/src/ovxx/parallel/assign_block_vector.hpp
index a4459c4..9a8be7c 100644
--- a/src/ovxx/parallel/assign_block_vector.hpp
+++ b/src/ovxx/parallel/assign_block_vector.hpp
@@ -556,6 +556,12 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_recv_list()
   typedef typename std::vector<Msg_record>::iterator rl_iterator;
   typedef storage_traits<typename LHS::value_type, dst_lp::storage_format> storage;
 
+  // If the local block isn't dense, the data is received into a copy.
+  // Access it 'inout': the received data needs to be written back,
+  // without affecting what has been assigned by other means.
+  dst_lview_type dst_lview = ovxx::get_local_view(dst_);
+  dda::Data<dst_local_block, dda::inout, dst_lp> dst_data(dst_lview.block());
+
   rl_iterator rl_cur = recv_list.begin();
   rl_iterator rl_end = recv_list.end();
     
@@ -563,11 +569,9 @@ Assignment<D, LHS, RHS, Blkvec_assign>::exec_recv_list()
   {
     processor_type proc = (*rl_cur).proc_;
 
-    dst_dda_.sync_in();
     recv(comm_, proc,
-	 storage::offset(dst_dda_.ptr(), (*rl_cur).offset_),
+	 storage::offset(dst_data.ptr(), (*rl_cur).offset_),
 	 (*rl_cur).size_);
-    dst_dda_.sync_out();
   }
 }
 
-- 
2.43.0


From e8790738a33d303ff6e8d0563ce4575074a2d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 08/41] fix: project a map with the distribution of the
 dimension that remains

Columns and slices of objects whose dimensions have different types of
distributions did not compile.
---
 src/ovxx/parallel/map_utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index 203b1fa..054d5da 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -92,7 +92,7 @@ struct map_project_1<1, Map<D0, D1, D2> >
 					 fix_sb_1*num_sb_2      + sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 2));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D2>(map, 2));
   }
 };
 
@@ -136,7 +136,7 @@ struct map_project_1<2, Map<D0, D1, D2> >
 					 fix_sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 1));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D1>(map, 1));
   }
 };
 
@@ -185,7 +185,7 @@ struct map_project_2<0, 1, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<0, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D1> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx0,
@@ -227,7 +227,7 @@ struct map_project_2<0, 2, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<1, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D0> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx1,
-- 
2.43.0


From 626be1e9aa0030f01a59d91cb957b652f599ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 09/41] fix: a slice of a tensor is empty on processors that
 hold none of it

Sliced2 gave such processors some line of their own part of the tensor.
---
 src/ovxx/expr/sliced.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index f0899ee..bbeffab 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -320,9 +320,11 @@ public:
   // The total size of a sliced block is the total size of the underlying
   // block, divided by the size of the bound index.
   length_type size() const VSIP_NOTHROW
-  { return block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
+  { return index1_ == no_index || index2_ == no_index ? 0 :
+      block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
   length_type size(dimension_type block_d, dimension_type d) const VSIP_NOTHROW
-  { return block_->size(block_d + 2,
+  { return index1_ == no_index || index2_ == no_index ? 0 :
+      block_->size(block_d + 2,
 		      ovxx::detail::compare<dimension_type, D1>() > d     ? d   :
 		      ovxx::detail::compare<dimension_type, D2>() > (d+1) ? d+1 : d+2);
   }
@@ -558,10 +560,18 @@ get_local_block(expr::Sliced2<B, D1, D2> const &block)
   typedef expr::Sliced2<typename distributed_local_block<B>::type, D1, D2>
     local_block_type;
 
-  index_type idx1 = block.block().map().
-    impl_local_from_global_index(D1, block.index1());
-  index_type idx2 = block.block().map().
-    impl_local_from_global_index(D2, block.index2());
+  // This conversion is only valid if the local processor holds
+  // the subblock containing the slice.
+
+  index_type idx1 = no_index;
+  index_type idx2 = no_index;
+  if (block.map().subblock() != no_subblock)
+  {
+    idx1 = block.block().map().
+      impl_local_from_global_index(D1, block.index1());
+    idx2 = block.block().map().
+      impl_local_from_global_index(D2, block.index2());
+  }
 
   return local_block_type(get_local_block(block.block()), idx1, idx2);
 }
-- 
2.43.0


From aad9880b56b75014206dbee0c1ad11248898d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 10/41] fix: list the processors of a default-constructed
 communicator

---
 src/ovxx/mpi/communicator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ovxx/mpi/communicator.cpp b/src/ovxx/mpi/communicator.cpp
index 6745373..2d4906f 100644
--- a/src/ovxx/mpi/communicator.cpp
+++ b/src/ovxx/mpi/communicator.cpp
@@ -28,6 +28,10 @@ struct comm_free
 Communicator::Communicator()
 {
   impl_.reset(new MPI_Comm(MPI_COMM_WORLD));
+  length_type s = size();
+  pvec_.resize(s);
+  for (index_type i = 0; i < s; ++i)
+    pvec_[i] = static_cast<processor_type>(i);
 }
 
 Communicator::Communicator(MPI_Comm const & comm, comm_create_kind kind)
-- 
2.43.0


From 1d5d29e3aa08cfb9d842d6ccdbd17fc9adb32f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 11/41] fix: excluding no processors from a group leaves the
 group unchanged

---
 src/ovxx/mpi/group.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/mpi/group.hpp b/src/ovxx/mpi/group.hpp
index cd43993..b98ddd6 100644
--- a/src/ovxx/mpi/group.hpp
+++ b/src/ovxx/mpi/group.hpp
@@ -89,7 +89,7 @@ Group::include(int *first, int *last)
 template<typename InputIterator>
 Group Group::exclude(InputIterator first, InputIterator last)
 {
-  if (first == last) return Group();
+  if (first == last) return *this;
   std::vector<int> ranks(first, last);
   MPI_Group g;
   OVXX_MPI_CHECK_RESULT(MPI_Group_excl, (*this, ranks.size(), &ranks[0], &g));
-- 
2.43.0


From a4e6effab59723b3f75e83c4464ef20ee9ca27a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 12/41] fix: copy a strided column-major matrix to a row-major
 one with its rows and columns in place

---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From da14e3f3dc3f90af8a801d338fdb6674e1981ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 13/41] fix: report the processor set of the current default
 communicator

---
 src/vsip/impl/parallel.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index 8aa460f..68a9225 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -19,23 +19,17 @@ namespace vsip
 
 inline const_Vector<processor_type> processor_set()
 {
-  static Dense<1, processor_type> *pset_block_ = 0;
-
-  if (pset_block_ == 0)
-  {
 #if OVXX_PARALLEL
-    namespace p = ovxx::parallel;
-    p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
-    pset_block_ = new Dense<1, processor_type>(Domain<1>(pvec.size()));
-    for (index_type i=0; i<pvec.size(); ++i)
-      pset_block_->put(i, pvec[i]);
+  // The default communicator may change, so this can't be cached.
+  namespace p = ovxx::parallel;
+  p::Communicator::pvec_type const &pvec = p::default_communicator().pvec();
+  Vector<processor_type> pset(pvec.size());
+  for (index_type i=0; i<pvec.size(); ++i)
+    pset.put(i, pvec[i]);
 #else
-    pset_block_ = new Dense<1, processor_type>(1);
-    pset_block_->put(0, 0);
+  Vector<processor_type> pset(1, processor_type(0));
 #endif
-  }
-
-  return Vector<processor_type>(*pset_block_);
+  return pset;
 }
 
 // [view.support.fcn] parallel support functions
-- 
2.43.0


From 2b55d7855c8a21991281374336b06a3f97e624a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 14/41] fix: initialise and finalise process-wide state once
 when threads start or end together

---
 src/ovxx/library.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 09338e5..542258b 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -50,12 +50,12 @@ unsigned int thread_local_count = 0;
 
 void initialize(int &argc, char **&argv)
 {
-  {
 #if defined(OVXX_ENABLE_THREADING)
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  // Process-global state is set up by the first thread, and has to be in place
+  // before any other thread goes on.
+  std::unique_lock<std::mutex> lock(global_count_guard);
 #endif
-    ++global_count;
-  }
+  ++global_count;
   if (thread_local_count++) return;
 
   if (global_count == 1)
@@ -95,6 +95,9 @@ void initialize(int &argc, char **&argv)
 #ifdef OVXX_ENABLE_OMP
   if (global_count == 1)
   {
+#if defined(OVXX_ENABLE_THREADING)
+    lock.unlock();
+#endif
     // Initialize OpenMP threads
 #pragma omp parallel
     // thread 0 is the main thread, which is already
@@ -120,12 +123,10 @@ void finalize()
     omp_library = 0;
   }
 #endif
-  {
 #if OVXX_ENABLE_THREADING
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    --global_count;
-  }
+  --global_count;
   --thread_local_count;
   if (!thread_local_count)
   {
-- 
2.43.0


From 33713739d0c407b70412a786944cdc36e03c9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 15/41] fix: detach the message buffer when the library is
 finalised

---
 src/ovxx/mpi/service.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 733f3de..405345b 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -59,9 +59,21 @@ void finalize(bool final)
   communicator = 0;
   if (final)
   {
-    if (finalize_mpi)
-      MPI_Finalize();
+    // Take the buffer back before it goes away: the application may go on
+    // to use MPI, or to use this library again.
+    int finalized;
+    MPI_Finalized(&finalized);
+    if (!finalized)
+    {
+      char *attached;
+      int size;
+      MPI_Buffer_detach(&attached, &size);
+      if (finalize_mpi)
+        MPI_Finalize();
+    }
+    finalize_mpi = false;
     delete[] buffer;
+    buffer = 0;
   }
 }
 
-- 
2.43.0


From 2afb11e272c67be2f414149fa8b602b5d848ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 16/41] fix: allocate the storage of a block in its constructor

It was allocated by the first access, of which several threads may make one at the
same time, and which cannot report that there is no memory.
---
 src/ovxx/storage/block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/storage/block.hpp b/src/ovxx/storage/block.hpp
index 1c67d05..977c399 100644
--- a/src/ovxx/storage/block.hpp
+++ b/src/ovxx/storage/block.hpp
@@ -74,7 +74,7 @@ public:
 
   stored_block(Domain<dim> const &dom, map_type const &map = map_type())
     : layout_(dom),
-      smanager_(map.impl_allocator(), layout_.total_size(), false),
+      smanager_(map.impl_allocator(), layout_.total_size(), true),
       map_(map)
   {
     map_.impl_apply(dom);
-- 
2.43.0


From 6a9c411a17e486b39e132a64e9f92b19d589ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 17/41] fix: let blocks outlive the thread that created them

---
 src/ovxx/allocator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/allocator.cpp b/src/ovxx/allocator.cpp
index dac4faf..6675160 100644
--- a/src/ovxx/allocator.cpp
+++ b/src/ovxx/allocator.cpp
@@ -22,12 +22,14 @@ allocator *allocator::default_ = 0;
 
 void allocator::initialize(int &/*argc*/, char **&/*argv*/)
 {
-  default_ = new aligned_allocator();
+  // All threads share one allocator, as a block may outlive the thread that
+  // created it.
+  static aligned_allocator shared;
+  default_ = &shared;
 }
 
 void allocator::finalize()
 {
-  delete default_;
   default_ = 0;
 }
 
-- 
2.43.0


From 8c836ce82bbaf4ca6f94d092580a54e4ec14851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 18/41] fix: let only one thread at a time create or destroy
 FFTW plans

---
 src/ovxx/fftw/fft.cpp  | 17 +++++++++++++++++
 src/ovxx/fftw/fftw.cpp |  8 ++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/fftw/fft.cpp b/src/ovxx/fftw/fft.cpp
index e46d43e..0d3cca0 100644
--- a/src/ovxx/fftw/fft.cpp
+++ b/src/ovxx/fftw/fft.cpp
@@ -11,6 +11,9 @@
 #include <ovxx/aligned_array.hpp>
 #include <vsip/dense.hpp>
 #include <fftw3.h>
+#if OVXX_ENABLE_THREADING
+# include <mutex>
+#endif
 
 namespace ovxx
 {
@@ -77,6 +80,20 @@ int make_flags(unsigned NoT, bool preserve_input = true)
   return flags;
 }
 
+// FFTW allows only one thread at a time to create or destroy plans
+// (whatever their precision, while executing them needs no protection).
+struct planner_lock
+{
+#if OVXX_ENABLE_THREADING
+  planner_lock() : lock_(mutex()) {}
+private:
+  static std::mutex &mutex() { static std::mutex m; return m;}
+  std::lock_guard<std::mutex> lock_;
+#else
+  planner_lock() {}
+#endif
+};
+
 template <dimension_type D, typename I, typename O> struct planner;
 template <dimension_type D, typename I, typename O, int S> class fft;
 template <typename I, typename O, int A, int D> class fftm;
diff --git a/src/ovxx/fftw/fftw.cpp b/src/ovxx/fftw/fftw.cpp
index dd42b5b..a7f8d0c 100644
--- a/src/ovxx/fftw/fftw.cpp
+++ b/src/ovxx/fftw/fftw.cpp
@@ -64,6 +64,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
       dims[i].n = layout.size(i);
       dims[i].is = dims[i].os = layout.stride(i);
     }
+    planner_lock lock;
     if (complex_storage_format == split_complex)
     {
       std::pair<SCALAR_TYPE*,SCALAR_TYPE*> in = 
@@ -103,6 +104,7 @@ struct planner<D, complex<SCALAR_TYPE>, complex<SCALAR_TYPE> >
   }
   ~planner() VSIP_NOTHROW
   {
+    planner_lock lock;
     FFTW(destroy_plan)(plan_op_);
     FFTW(destroy_plan)(plan_ip_);
   }
@@ -171,6 +173,7 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
       dims[i].is = in_layout.stride(i); 
       dims[i].os = out_layout.stride(i); 
     }
+    planner_lock lock;
     if (complex_storage_format == split_complex)
     {
       SCALAR_TYPE *in = in_buffer_.get();
@@ -188,7 +191,7 @@ struct planner<D, SCALAR_TYPE, complex<SCALAR_TYPE> >
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW { planner_lock lock; FFTW(destroy_plan)(plan_);}
 
   aligned_array<SCALAR_TYPE> in_buffer_;
   aligned_array<complex<SCALAR_TYPE> > out_buffer_;
@@ -253,6 +256,7 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
       dims[i].is = in_layout.stride(i); 
       dims[i].os = out_layout.stride(i); 
     }
+    planner_lock lock;
     if (complex_storage_format == split_complex)
     {
       std::pair<SCALAR_TYPE*,SCALAR_TYPE*> in = 
@@ -270,7 +274,7 @@ struct planner<D, complex<SCALAR_TYPE>, SCALAR_TYPE>
     }
     if (!plan_) OVXX_DO_THROW(std::bad_alloc());
   }
-  ~planner() VSIP_NOTHROW { FFTW(destroy_plan)(plan_);}
+  ~planner() VSIP_NOTHROW { planner_lock lock; FFTW(destroy_plan)(plan_);}
 
   aligned_array<complex<SCALAR_TYPE> > in_buffer_;
   aligned_array<SCALAR_TYPE> out_buffer_;
-- 
2.43.0


From 35339813b67f822404a2676bb9933c1636bfe0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 19/41] fix: leave the library uninitialised when its
 initialisation fails

---
 src/ovxx/library.cpp     | 10 +++++-----
 src/ovxx/mpi/service.cpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 542258b..2ccbfd4 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -55,10 +55,7 @@ void initialize(int &argc, char **&argv)
   // before any other thread goes on.
   std::unique_lock<std::mutex> lock(global_count_guard);
 #endif
-  ++global_count;
-  if (thread_local_count++) return;
-
-  if (global_count == 1)
+  if (!global_count)
   {
 #ifndef OVXX_TIMER_SYSTEM
     chrono::high_resolution_clock::init();
@@ -85,13 +82,16 @@ void initialize(int &argc, char **&argv)
 # endif
 #endif // OVXX_FFTW_THREADS
   }
-  if (thread_local_count == 1)
+  if (!thread_local_count)
   {
     allocator::initialize(argc, argv);
 #if OVXX_HAVE_MPI
     mpi::initialize(argc, argv);
 #endif
   }
+  // Only count what has succeeded, so a failed initialization may be repeated.
+  ++global_count;
+  ++thread_local_count;
 #ifdef OVXX_ENABLE_OMP
   if (global_count == 1)
   {
diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 405345b..b1de90c 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -34,7 +34,6 @@ void initialize(int &argc, char **&argv)
 {
   if (!buffer)
   {
-    buffer = new char[BUFSIZE];
     int initialized;
     OVXX_MPI_CHECK_RESULT(MPI_Initialized, (&initialized));
     if (!initialized)
@@ -43,6 +42,7 @@ void initialize(int &argc, char **&argv)
       OVXX_INVARIANT(initialized);
       finalize_mpi = true;
     }
+    buffer = new char[BUFSIZE];
     MPI_Buffer_attach(buffer, BUFSIZE);
     MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_RETURN);
     // Initialize complex datatypes.
-- 
2.43.0


From 8efa5517d1400b0220e239a2e924007f4d8a2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 20/41] fix: report failing MPI calls

barrier(), wait() and the creation of datatypes ignored the result of the MPI
call; what() did not override std::exception::what().
---
 src/ovxx/mpi/communicator.hpp |  4 ++--
 src/ovxx/mpi/datatype.hpp     | 19 +++++++++++--------
 src/ovxx/mpi/exception.hpp    |  2 +-
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/ovxx/mpi/communicator.hpp b/src/ovxx/mpi/communicator.hpp
index b1a8f08..2841b95 100644
--- a/src/ovxx/mpi/communicator.hpp
+++ b/src/ovxx/mpi/communicator.hpp
@@ -78,7 +78,7 @@ public:
   }
   Communicator split(int color) const { return split(color, rank());}
 
-  void barrier() const { MPI_Barrier(*this);}
+  void barrier() const { OVXX_MPI_CHECK_RESULT(MPI_Barrier, (*this));}
 
   template <typename T>
   void buf_send(processor_type dest_proc, T* data, length_type size);
@@ -175,7 +175,7 @@ inline void
 Communicator::wait(request_type& req)
 {
   MPI_Status status;
-  MPI_Wait(&req, &status);
+  OVXX_MPI_CHECK_RESULT(MPI_Wait, (&req, &status));
 }
 
 /// Broadcast a value from root processor to other processors.
diff --git a/src/ovxx/mpi/datatype.hpp b/src/ovxx/mpi/datatype.hpp
index a6e7da9..0cb4382 100644
--- a/src/ovxx/mpi/datatype.hpp
+++ b/src/ovxx/mpi/datatype.hpp
@@ -11,6 +11,7 @@
 
 #include <ovxx/support.hpp>
 #include <vsip/domain.hpp>
+#include <ovxx/mpi/exception.hpp>
 #include <mpi.h>
 
 namespace ovxx
@@ -51,9 +52,10 @@ struct Datatype<Index<D> >
 
     if (first)
     {
+      OVXX_MPI_CHECK_RESULT(MPI_Type_contiguous,
+	(D, Datatype<index_type>::value(), &datatype));
+      OVXX_MPI_CHECK_RESULT(MPI_Type_commit, (&datatype));
       first = false;
-      MPI_Type_contiguous(D, Datatype<index_type>::value(), &datatype);
-      MPI_Type_commit(&datatype);
     }
 
     return datatype;
@@ -70,9 +72,10 @@ struct Datatype<std::complex<T> >
 
     if (first)
     {
+      OVXX_MPI_CHECK_RESULT(MPI_Type_contiguous,
+	(2, Datatype<T>::value(), &datatype));
+      OVXX_MPI_CHECK_RESULT(MPI_Type_commit, (&datatype));
       first = false;
-      MPI_Type_contiguous(2, Datatype<T>::value(), &datatype);
-      MPI_Type_commit(&datatype);
     }
 
     return datatype;
@@ -89,15 +92,15 @@ struct Datatype<bool>
 
     if (first)
     {
-      first = false;
-
       if (sizeof(bool) == 1)
 	datatype = MPI_BYTE;
       else
       {
-	MPI_Type_contiguous(sizeof(bool), MPI_BYTE, &datatype);
-	MPI_Type_commit(&datatype);
+	OVXX_MPI_CHECK_RESULT(MPI_Type_contiguous,
+	  (sizeof(bool), MPI_BYTE, &datatype));
+	OVXX_MPI_CHECK_RESULT(MPI_Type_commit, (&datatype));
       }
+      first = false;
     }
 
     return datatype;
diff --git a/src/ovxx/mpi/exception.hpp b/src/ovxx/mpi/exception.hpp
index 85ced12..62c74c3 100644
--- a/src/ovxx/mpi/exception.hpp
+++ b/src/ovxx/mpi/exception.hpp
@@ -36,7 +36,7 @@ class exception : public std::exception
   }
 
   virtual ~exception() throw() {}
-  virtual char const *what() { return this->msg_.c_str();}
+  virtual char const *what() const throw() { return this->msg_.c_str();}
   char const *routine() const { return routine_;}
   int result_code() const { return code_;}
   int error_class() const 
-- 
2.43.0


From 558716b557ff1b785283020278ef33b16f90b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 21/41] fix: admit and release of a block without user-storage
 must not touch user-storage

---
 src/ovxx/storage/manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..edce52e 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,8 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && !use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +215,8 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From 563a09e42883be8b4268be5787a0f12f4c0e5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 22/41] fix: find must not return uninitialized pointers for a
 block without user-storage

---
 src/ovxx/storage/user.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/storage/user.hpp b/src/ovxx/storage/user.hpp
index e1d80a2..13c4169 100644
--- a/src/ovxx/storage/user.hpp
+++ b/src/ovxx/storage/user.hpp
@@ -74,13 +74,20 @@ class user_storage<complex<T> >
   friend struct detail::storage_cast;
 public:
   user_storage()
-    : format_(no_user_format), size_(0) { data_.a = 0;}
+    : format_(no_user_format), size_(0)
+  { data_.s.first = data_.s.second = 0;}
   user_storage(complex<T> *data, length_type size)
     : format_(data ? array_format : no_user_format), size_(size)
-  { data_.a = data;}
+  {
+    data_.s.first = data_.s.second = 0;
+    data_.a = data;
+  }
   user_storage(T *data, length_type size)
     : format_(data ? interleaved_format : no_user_format), size_(size)
-  { data_.i = data;}
+  {
+    data_.s.first = data_.s.second = 0;
+    data_.i = data;
+  }
   user_storage(std::pair<T*,T*> data, length_type size)
     : format_(data.first ? split_format : no_user_format), size_(size)
   {
-- 
2.43.0


From df45aef789fca79d8d3ea46366865994b3340a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 23/41] fix: rebinding a block to a null pointer leaves it
 without user-storage

---
 src/ovxx/storage/user.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/storage/user.hpp b/src/ovxx/storage/user.hpp
index 13c4169..7b900a9 100644
--- a/src/ovxx/storage/user.hpp
+++ b/src/ovxx/storage/user.hpp
@@ -47,13 +47,13 @@ public:
   void rebind(T *ptr)
   {
     data_ = ptr;
-    this->format_ = array_format;
+    this->format_ = ptr ? array_format : no_user_format;
   }
   void rebind(T *ptr, length_type size)
   {
     this->data_ = ptr;
     this->size_ = size;
-    this->format_ = array_format;
+    this->format_ = ptr ? array_format : no_user_format;
   }
 
   T get(index_type i) const { return data_[i];}
@@ -112,36 +112,36 @@ public:
   void rebind(complex<T> *ptr)
   {
     this->data_.a = ptr;
-    this->format_ = array_format;
+    this->format_ = ptr ? array_format : no_user_format;
   }
   void rebind(complex<T> *ptr, length_type size)
   {
     this->data_.a = ptr;
-    this->format_ = array_format;
+    this->format_ = ptr ? array_format : no_user_format;
     this->size_ = size;
   }
   void rebind(T *ptr)
   {
     this->data_.i = ptr;
-    this->format_ = interleaved_format;
+    this->format_ = ptr ? interleaved_format : no_user_format;
   }
   void rebind(T *ptr, length_type size)
   {
     this->data_.i = ptr;
-    this->format_ = interleaved_format;
+    this->format_ = ptr ? interleaved_format : no_user_format;
     this->size_ = size;
   }
   void rebind(std::pair<T*,T*> ptr)
   {
     this->data_.s.first = ptr.first;
     this->data_.s.second = ptr.second;
-    this->format_ = split_format;
+    this->format_ = ptr.first ? split_format : no_user_format;
   }
   void rebind(std::pair<T*,T*> ptr, length_type size)
   {
     this->data_.s.first = ptr.first;
     this->data_.s.second = ptr.second;
-    this->format_ = split_format;
+    this->format_ = ptr.first ? split_format : no_user_format;
     this->size_ = size;
   }
 
-- 
2.43.0


From cf91c1bf5c039bc0e95cff05dec3f9f645ad00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 24/41] fix: release the first half of split-complex storage if
 allocating the second one fails

---
 src/ovxx/storage/host.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ovxx/storage/host.hpp b/src/ovxx/storage/host.hpp
index a86100a..f522587 100644
--- a/src/ovxx/storage/host.hpp
+++ b/src/ovxx/storage/host.hpp
@@ -233,8 +233,14 @@ public:
   {
     if (own_data_ && !this->data_.first)
     {
-      this->data_.first = allocator_->allocate<T>(this->size_);
-      this->data_.second = allocator_->allocate<T>(this->size_);
+      ptr_type data(allocator_->allocate<T>(this->size_), 0);
+      try { data.second = allocator_->allocate<T>(this->size_);}
+      catch (...)
+      {
+	allocator_->deallocate(data.first, this->size_);
+	throw;
+      }
+      this->data_ = data;
     }
   }
   virtual void deallocate()
@@ -332,9 +338,17 @@ public:
 	this->data_ = allocator_->allocate<T>(2*this->size_);
 	break;
       case split_complex:
-	this->data_ = std::make_pair(allocator_->allocate<T>(this->size_),
-				     allocator_->allocate<T>(this->size_));
+      {
+	std::pair<T*,T*> data(allocator_->allocate<T>(this->size_), 0);
+	try { data.second = allocator_->allocate<T>(this->size_);}
+	catch (...)
+	{
+	  allocator_->deallocate(data.first, this->size_);
+	  throw;
+	}
+	this->data_ = data;
 	break;
+      }
       default: assert(0);
     }
   }
-- 
2.43.0


From 41404bdfd40aeaed854084a0ba8965236f92188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 25/41] fix: resizing host storage to its current size must
 allocate it if a former allocation failed

---
 src/ovxx/storage/host.hpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/ovxx/storage/host.hpp b/src/ovxx/storage/host.hpp
index f522587..9cee761 100644
--- a/src/ovxx/storage/host.hpp
+++ b/src/ovxx/storage/host.hpp
@@ -73,13 +73,10 @@ public:
   }
   virtual void resize(length_type size)
   {
-    if (own_data_)
-    {
-      if (this->size_ == size) return;
-      else deallocate();
-    }
-    else
+    if (!own_data_)
       this->data_ = ptr_type();
+    else if (this->size_ != size)
+      deallocate();
     this->size_ = size;
     own_data_ = true;
     allocate();
@@ -157,13 +154,10 @@ public:
   }
   virtual void resize(length_type size)
   {
-    if (own_data_)
-    {
-      if (this->size_ == size) return;
-      else deallocate();
-    }
-    else
+    if (!own_data_)
       this->data_ = ptr_type();
+    else if (this->size_ != size)
+      deallocate();
     this->size_ = size;
     own_data_ = true;
     allocate();
@@ -251,13 +245,10 @@ public:
   }
   virtual void resize(length_type size)
   {
-    if (own_data_)
-    {
-      if (this->size_ == size) return;
-      else deallocate();
-    }
-    else
+    if (!own_data_)
       this->data_ = ptr_type();
+    else if (this->size_ != size)
+      deallocate();
     this->size_ = size;
     own_data_ = true;
     allocate();
-- 
2.43.0


From 886cea333352fbd57108516350753b2683b4c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 26/41] fix: aligned_512 is an aligned packing, too

---
 src/ovxx/layout.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ovxx/layout.hpp b/src/ovxx/layout.hpp
index b77e075..81f1dfc 100644
--- a/src/ovxx/layout.hpp
+++ b/src/ovxx/layout.hpp
@@ -93,6 +93,7 @@ OVXX_ALIGNED(aligned_32)
 OVXX_ALIGNED(aligned_64)
 OVXX_ALIGNED(aligned_128)
 OVXX_ALIGNED(aligned_256)
+OVXX_ALIGNED(aligned_512)
 OVXX_ALIGNED(aligned_1024)
 
 #undef OVXX_ALIGNED
-- 
2.43.0


From d75c7177998fe7c2b07135ba7a83a90d09900be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 27/41] fix: histograms of integers must not truncate the width
 of their bins

---
 src/vsip/impl/signal/histo.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..7a814d9 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -13,18 +13,28 @@
 #include <vsip/vector.hpp>
 #include <vsip/matrix.hpp>
 #include <ovxx/dispatch.hpp>
+#include <algorithm>
+#include <type_traits>
 
 namespace vsip
 {
 namespace impl
 {
+// The width of the bins between min and max. As it need not be an integer
+// even if the values are, compute it in floating point.
+template <typename T, bool Integral = std::is_integral<T>::value>
+struct Hist_width { typedef T type;};
 template <typename T>
+struct Hist_width<T, true> { typedef double type;};
+
+template <typename T, typename D>
 inline index_type
-hist_bin(T min, T max, T delta, length_type num, T value)
+hist_bin(T min, T max, D delta, length_type num, T value)
 {
   if (value < min) return 0;
   else if (value >= max) return num - 1;
-  else return (index_type)(((value - min) / delta) + 1);
+  // Rounding must not carry a value below max into the last bin.
+  else return std::min<index_type>((D(value) - D(min)) / delta + 1, num - 2);
 } 
 
 template <dimension_type D>
@@ -37,7 +47,8 @@ struct Histogram_accumulator<1>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    typedef typename Hist_width<T>::type width_type;
+    width_type delta = (width_type(max) - width_type(min)) / (num - 2);
 
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
@@ -54,7 +65,8 @@ struct Histogram_accumulator<2>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
+    typedef typename Hist_width<T>::type width_type;
+    width_type delta = (width_type(max) - width_type(min)) / (num - 2);
 
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
-- 
2.43.0


From 56da496b188883de01291684fc961ada1c422b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 28/41] fix: a copy of a histogram must not share the counts of
 the original

---
 src/vsip/impl/signal/histo.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index 7a814d9..df7755d 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -142,6 +142,24 @@ public:
     hist_ = hist;
   }
 
+  // A copy counts for itself.
+  Histogram(Histogram const &h) VSIP_THROW((std::bad_alloc))
+    : min_(h.min_),
+      max_(h.max_),
+      hist_(h.hist_.size())
+  {
+    hist_ = h.hist_;
+  }
+
+  Histogram &operator=(Histogram const &h) VSIP_NOTHROW
+  {
+    OVXX_PRECONDITION(hist_.size() == h.hist_.size());
+    min_ = h.min_;
+    max_ = h.max_;
+    hist_ = h.hist_;
+    return *this;
+  }
+
   ~Histogram() VSIP_NOTHROW
   {}
 
-- 
2.43.0


From 227a58f3a2d247b8891fe6e40826fd69db012d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 29/41] fix: compare what each processor holds, not global
 domains, before transforming distributed data

---
 src/ovxx/signal/fft.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/signal/fft.hpp b/src/ovxx/signal/fft.hpp
index 76deb69..3af5dea 100644
--- a/src/ovxx/signal/fft.hpp
+++ b/src/ovxx/signal/fft.hpp
@@ -78,6 +78,18 @@ namespace fft
 /// else ................................... estimate
 enum fftw_planning { estimate=1, measure=12, patient=32};
 
+// Return true if the local processor holds the same parts of 'in' and 'out'.
+// (It may hold no part at all, or - if the distribution is cyclic - many.)
+template <typename V1, typename V2>
+bool same_local_patches(V1 const &in, V2 const &out)
+{
+  length_type const patches = num_patches(in);
+  if (patches != num_patches(out)) return false;
+  for (index_type p = 0; p != patches; ++p)
+    if (global_domain(in, p) != global_domain(out, p)) return false;
+  return true;
+}
+
 template <dimension_type D, typename I, typename O, int A, int E>
 class Interface
 {
@@ -408,7 +420,7 @@ public:
 	  out.block().map().num_subblocks(axis) != 1)
 	OVXX_DO_THROW(unimplemented(
 	  "Fftm requires dimension along FFT to not be distributed"));
-      if (global_domain(in) != global_domain(out))
+      if (!fft::same_local_patches(in, out))
 	OVXX_DO_THROW(unimplemented(
 	  "Fftm requires input and output to have same mapping"));
     }
-- 
2.43.0


From e61e33f5a17c168db721241ffb7b22020b9a74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 30/41] fix: pass the lengths of its string arguments to ilaenv

---
 src/ovxx/lapack/flapack.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/flapack.hpp b/src/ovxx/lapack/flapack.hpp
index 6374564..cbeccfa 100644
--- a/src/ovxx/lapack/flapack.hpp
+++ b/src/ovxx/lapack/flapack.hpp
@@ -9,6 +9,7 @@
 #define ovxx_lapack_flapack_hpp_
 
 #include <vsip/support.hpp>
+#include <cstring>
 
 namespace ovxx
 {
@@ -69,13 +70,16 @@ extern "C"
   void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
   void cgetrs_(char*, int*, int*, std::complex<float>*, int*, int*, std::complex<float>*, int*, int*);
   void zgetrs_(char*, int*, int*, std::complex<double>*, int*, int*, std::complex<double>*, int*, int*);
-  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*);
+  // The last two arguments are the lengths of the two strings.
+  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*,
+	      std::size_t, std::size_t);
 }
 
 inline int
 ilaenv(int ispec, char const *name, char const *opts, int n1, int n2, int n3, int n4)
 {
-  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4);
+  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4,
+		 std::strlen(name), std::strlen(opts));
 }
 
 #define OVXX_LAPACK_INVALID_ARG abort()
-- 
2.43.0


From 658e8ec6d93563784cfdcf6fa1398db8b112fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 31/41] fix: converting a const_Vector or const_Tensor to a
 vector or tensor may run out of memory

---
 src/vsip/impl/vector.hpp | 2 +-
 src/vsip/tensor.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/vector.hpp b/src/vsip/impl/vector.hpp
index b46adea..fd7a572 100644
--- a/src/vsip/impl/vector.hpp
+++ b/src/vsip/impl/vector.hpp
@@ -172,7 +172,7 @@ public:
   Vector(Block &block) VSIP_NOTHROW : base_type(block) {}
   Vector(Vector const &v) VSIP_NOTHROW : base_type(v.block()) {}
   template <typename T0, typename Block0>
-  Vector(const_Vector<T0, Block0> const& v) VSIP_NOTHROW
+  Vector(const_Vector<T0, Block0> const& v)
     : base_type(v.length(), v.block().map())
   { *this = v;}
   ~Vector() VSIP_NOTHROW {}
diff --git a/src/vsip/tensor.hpp b/src/vsip/tensor.hpp
index 39cf154..a288700 100644
--- a/src/vsip/tensor.hpp
+++ b/src/vsip/tensor.hpp
@@ -293,7 +293,7 @@ public:
   Tensor(Block &block) VSIP_NOTHROW : base_type(block) {}
   Tensor(Tensor const &t) VSIP_NOTHROW : base_type(t.block()) {}
   template <typename T0, typename Block0>
-  Tensor(const_Tensor<T0, Block0> const &t) VSIP_NOTHROW
+  Tensor(const_Tensor<T0, Block0> const &t)
     : base_type(t.size(0), t.size(1), t.size(2), t.block().map())
   { *this = t;}
   template <typename T0, typename Block0>
-- 
2.43.0


From f9880fe5184eb5fa8c03cc34e9c17caaa785bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 32/41] fix: assignment of solver objects must return the
 object, or compile at all

---
 src/ovxx/lapack/cholesky.hpp |  1 +
 src/ovxx/lapack/lu.hpp       |  4 +++-
 src/ovxx/lapack/qr.hpp       |  1 +
 src/ovxx/lapack/svd.hpp      | 21 +++++++++++++++++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..9f244c1 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
+    for (index_type i = 0; i < length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
     data_ = other.data_;
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..be1fa57 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // TODO: At present assignment requires dimensions to match,
+  //       as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  q_ = other.q_;
+  pt_ = other.pt_;
+  for (index_type i = 0; i < p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From e7d5a98bf6d0e5ba2565bc3be3f738fa6a4b3c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 33/41] fix: prodq of a skinny Q must not access operands out
 of bounds

---
 src/ovxx/lapack/qr.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..29a8fdc 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,27 +153,32 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // The reflectors act on rows_ elements.  If only the first columns of
+    // Q are wanted, this is more than either b or x may have.
+    length_type c_rows = ps == mat_lside ? rows_ : b.size(0);
+    length_type c_cols = ps == mat_lside ? b.size(1) : rows_;
+    Matrix<T, data_block_type> c(c_rows, c_cols);
+    if (c_rows != b.size(0) || c_cols != b.size(1)) c = T();
+    parallel::assign_local(c(Domain<2>(b.size(0), b.size(1))), b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   c_rows, c_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
-      dda::Data<data_block_type, dda::inout> b_data(b_int.block());
+      dda::Data<data_block_type, dda::inout> c_data(c.block());
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  c_rows, c_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  c_data.ptr(), c_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, c(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0


From b9202c26a25b47ea0e73401beb5efbfb9e9b83f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:38 +0000
Subject: [PATCH 34/41] fix: Toeplitz systems of one equation

---
 src/vsip/impl/solver/toepsol.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..c3162ac 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -58,6 +58,11 @@ VSIP_THROW((std::bad_alloc, computation_error))
 
   length_type n = t.size();
 
+  if (n == 1)
+  {
+    x.put(0, b.get(0) / ovxx::math::impl_real(t.get(0)));
+    return x;
+  }
 
   typename const_Vector<T, Block0>::subview_type r = t(Domain<1>(1, 1, n-1));
   Vector<T> tmpv(n);
-- 
2.43.0


From 0a72a01509ddce8da288e04c7cce1fc392d5875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 35/41] fix: pass matrices to BLAS only if their strides have a
 form BLAS knows

---
 src/ovxx/lapack/blas.hpp | 111 ++++++++++++++++++++++++---------------
 1 file changed, 69 insertions(+), 42 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..8ed9723 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -215,6 +215,32 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// BLAS walks vectors with a negative increment from their other end,
+/// while a view's data pointer always refers to its first element, and
+/// rejects an increment of zero.
+inline bool valid_vector(stride_type stride) { return stride > 0;}
+
+/// BLAS requires one dimension of a matrix to be unit-stride, and the
+/// slices along that dimension not to overlap nor to run backwards.
+inline bool valid_matrix(stride_type minor_stride, stride_type major_stride,
+			 length_type minor_size)
+{
+  return minor_stride == 1 &&
+    major_stride >= static_cast<stride_type>(minor_size);
+}
+
+/// Check that the matrix `block`, whose data is accessible via `data`,
+/// can be passed to BLAS.
+template <typename B, dda::sync_policy S>
+inline bool valid_matrix(B const &block, dda::Data<B, S> const &data)
+{
+  bool is_row = is_same<typename get_block_layout<B>::order_type,
+			row2_type>::value;
+  dimension_type minor = is_row ? 1 : 0;
+  return valid_matrix(data.stride(minor), data.stride(1 - minor),
+		      block.size(2, minor));
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -227,18 +253,20 @@ struct Evaluator<op::outer, be::blas,
 {
   static bool const ct_valid = 
     blas::traits<T>::valid &&
+    is_same<T, typename B0::value_type>::value &&
     is_same<T, typename B1::value_type>::value &&
     is_same<T, typename B2::value_type>::value &&
+    dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, T, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, T, B1 const &a, B2 const &b)
   {
-    typedef typename get_block_layout<B1>::order_type order1_type;
-
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
-    return (data_a.stride(0) == 1) && (data_b.stride(0) == 1);
+    return (data_a.stride(0) == 1) && (data_b.stride(0) == 1) &&
+      blas::valid_matrix(r, data_r);
   }
 
   static void exec(B0 &r, T alpha, B1 const &a, B2 const &b)
@@ -261,7 +289,7 @@ struct Evaluator<op::outer, be::blas,
 		alpha,                         // T alpha,
 		data_b.ptr(), data_b.stride(0),// T *x, int incx,
 		data_a.ptr(), data_a.stride(0),// T *y, int incy,
-		data_r.ptr(), r.size(2, 1));   // T *a, int lda
+		data_r.ptr(), data_r.stride(0)); // T *a, int lda
     }
     else if (is_same<order0_type, col2_type>::value)
     {
@@ -269,7 +297,7 @@ struct Evaluator<op::outer, be::blas,
 		alpha,                         // T alpha,
 		data_a.ptr(), data_a.stride(0),// T *x, int incx,
 		data_b.ptr(), data_b.stride(0),// T *y, int incy,
-		data_r.ptr(), r.size(2, 0));   // T *a, int lda
+		data_r.ptr(), data_r.stride(1)); // T *a, int lda
     }
     else
       assert(0);
@@ -282,22 +310,24 @@ struct Evaluator<op::outer, be::blas,
 {
   static bool const ct_valid = 
     blas::traits<complex<T> >::valid &&
+    is_same<complex<T>, typename B0::value_type>::value &&
     is_same<complex<T>, typename B1::value_type>::value &&
     is_same<complex<T>, typename B2::value_type>::value &&
+    dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
     !is_split_block<B0>::value &&
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, complex<T>, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, complex<T>, B1 const &a, B2 const &b)
   {
-    typedef typename get_block_layout<B1>::order_type order1_type;
-
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    return (data_a.stride(0) == 1) && (data_b.stride(0) == 1);
+    return (data_a.stride(0) == 1) && (data_b.stride(0) == 1) &&
+      blas::valid_matrix(r, data_r);
   }
 
   static void exec(B0 &r, complex<T> alpha, B1 const &a, B2 const &b)
@@ -322,7 +352,7 @@ struct Evaluator<op::outer, be::blas,
 		 complex<T>(1),                 // T alpha,
 		 data_b.ptr(), data_b.stride(0),// T *x, int incx,
 		 data_a.ptr(), data_a.stride(0),// T *y, int incy,
-		 data_r.ptr(), r.size(2, 1));   // T *a, int lda
+		 data_r.ptr(), data_r.stride(0)); // T *a, int lda
 
       // FIXME: use element-wise conjugate
       for (index_type i = 0; i < r.size(2, 0); ++i)
@@ -336,7 +366,7 @@ struct Evaluator<op::outer, be::blas,
 		 alpha,                         // T alpha,
 		 data_a.ptr(), data_a.stride(0),// T *x, int incx,
 		 data_b.ptr(), data_b.stride(0),// T *y, int incy,
-		 data_r.ptr(), r.size(2, 0));   // T *a, int lda
+		 data_r.ptr(), data_r.stride(1)); // T *a, int lda
     }
     else
       assert(0);
@@ -415,24 +445,28 @@ struct Evaluator<op::prod, be::blas,
     blas::traits<T>::valid &&
     is_same<T, typename B1::value_type>::value &&
     is_same<T, typename B2::value_type>::value &&
+    dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
     !is_split_block<B0>::value &&
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B1>::order_type order1_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    if (!blas::valid_matrix(a, data_a)) return false;
     // Note: gemm is used for row type and b is restricted to unit stride.
-    // gemv is used for col type and can handle any stride for b.
+    // gemv is used for col type and can handle any positive stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return blas::valid_vector(data_r.stride(0)) &&
+      (is_a_row ? data_b.stride(0) == 1 
+                : blas::valid_vector(data_b.stride(0)));
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -455,7 +489,7 @@ struct Evaluator<op::prod, be::blas,
 		 a.size(2, 1),       // K
 		 1.0,                // alpha
 		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
+		 data_a.ptr(), data_a.stride(0),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -484,25 +518,28 @@ struct Evaluator<op::prod, be::blas,
     blas::traits<T>::valid &&
     is_same<T, typename B1::value_type>::value &&
     is_same<T, typename B2::value_type>::value &&
+    dda::Data<B0, dda::out>::ct_cost == 0 &&
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0 &&
     !is_split_block<B0>::value &&
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    // Note: gemv is used for row type and can handle any stride for a.
-    // gemm is used for col type and a is restricted to unit stride.
-    // 
+    if (!blas::valid_matrix(b, data_b)) return false;
+    // Note: gemv is used for row type and can handle any positive stride
+    // for a. gemm is used for col type and a is restricted to unit stride.
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return blas::valid_vector(data_r.stride(0)) &&
+      (is_b_row ? blas::valid_vector(data_a.stride(0))
+                : data_a.stride(0) == 1);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -535,7 +572,7 @@ struct Evaluator<op::prod, be::blas,
 		 b.size(2, 0),       // K
 		 1.0,                // alpha
 		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
+		 data_b.ptr(), data_b.stride(1),
 		 0.0,                // beta
 		 data_r.ptr(), data_r.stride(0));
     }
@@ -563,19 +600,14 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
-    typedef typename get_block_layout<B1>::order_type order1_type;
-    typedef typename get_block_layout<B2>::order_type order2_type;
-
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    bool is_a_row = is_same<order1_type, row2_type>::value;
-    bool is_b_row = is_same<order2_type, row2_type>::value;
-
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return blas::valid_matrix(r, data_r) &&
+      blas::valid_matrix(a, data_a) && blas::valid_matrix(b, data_b);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -649,19 +681,14 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
-    typedef typename get_block_layout<B1>::order_type order1_type;
-    typedef typename get_block_layout<B2>::order_type order2_type;
-
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    bool is_a_row = is_same<order1_type, row2_type>::value;
-    bool is_b_row = is_same<order2_type, row2_type>::value;
-
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return blas::valid_matrix(r, data_r) &&
+      blas::valid_matrix(a, data_a) && blas::valid_matrix(b, data_b);
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From 640b9a1975821918c107193ded8aff0fdcab8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 36/41] fix: swapping views must not depend on the dimension
 order of their blocks

---
 src/vsip/selgen.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..d07b2d8 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -10,6 +10,8 @@
 #define vsip_selgen_hpp_
 
 #include <ovxx/block_traits.hpp>
+#include <ovxx/domain_utils.hpp>
+#include <ovxx/length.hpp>
 #include <ovxx/expr/unary.hpp>
 #include <ovxx/expr/generator.hpp>
 #include <vsip/vector.hpp>
@@ -256,19 +258,20 @@ invclip(const_View<Tin0, Block> v,
 namespace impl
 {
 /// Generic swapping of the content of two blocks.
-template <typename Block1, typename Block2>
+template <dimension_type D, typename Block1, typename Block2>
 struct Swap
 {
   static void apply(Block1 &block1, Block2 &block2)
   {
-    assert(block1.size() == block2.size());
-    for (index_type i = 0; i != block1.size(); ++i)
+    using namespace ovxx;
+    Length<D> ext = extent<D>(block1);
+    assert(ext == extent<D>(block2));
+    for (Index<D> idx; valid(ext, idx); next(ext, idx))
     {
-      typename Block1::value_type tmp = block1.get(i);
-      block1.put(i, block2.get(i));
-      block2.put(i, tmp);
+      typename Block1::value_type tmp = ovxx::get(block1, idx);
+      ovxx::put(block1, idx, ovxx::get(block2, idx));
+      ovxx::put(block2, idx, tmp);
     }
-
   }
 };
 }
@@ -279,7 +282,8 @@ template <typename T1, typename T2,
 inline void
 swap(View<T1, Block1> v, View<T2, Block2> w)
 {
-  impl::Swap<Block1, Block2>::apply(v.block(), w.block());
+  impl::Swap<View<T1, Block1>::dim, Block1, Block2>::apply
+    (v.block(), w.block());
 }
 
 } // namespace vsip
-- 
2.43.0


From b91cecbf704cbd1746490947d61df929583cd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 37/41] fix: assignment between split-complex matrices of
 different dimension order

---
 src/ovxx/assign/copy.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index f09a850..ee4e07c 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -58,6 +58,18 @@ transpose(T1 *lhs, stride_type lhs_col_stride,
       lhs[r+c*lhs_col_stride] = rhs[r*rhs_row_stride+c];
 }
 
+template <typename T1, typename T2>
+void
+transpose(std::pair<T1*, T1*> const &lhs, stride_type lhs_col_stride,
+	  std::pair<T2 const*, T2 const*> const &rhs, stride_type rhs_row_stride,
+	  length_type lhs_rows, length_type lhs_cols)
+{
+  transpose(lhs.first, lhs_col_stride, rhs.first, rhs_row_stride,
+	    lhs_rows, lhs_cols);
+  transpose(lhs.second, lhs_col_stride, rhs.second, rhs_row_stride,
+	    lhs_rows, lhs_cols);
+}
+
 template <typename T>
 void
 copy(T *lhs, stride_type lhs_stride,
-- 
2.43.0


From 79b31753371aff61652aa11b545e023275a712ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 38/41] fix: data of another dimension or with a reversed
 middle dimension are not compatible with a block

---
 src/vsip/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 5f71220..d2f43f1 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -125,7 +125,9 @@ struct ordering_compatibility<tuple<D0, D1, D2> >
 	 static_cast<length_type>(info.stride[D0]) != info.size[D1])) return false;
     else if (info.dimensions == 3 && 
 	     (info.stride[D0] < 0 ||
-	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1])) return false;
+	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1] ||
+	      info.stride[D1] < 0 ||
+	      static_cast<length_type>(info.stride[D1]) != info.size[D2])) return false;
     return true;
   }
 };
@@ -145,7 +147,7 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
     // ...else we require strict type equality
     else if (type_info<T>::value != info.value_type)
       return false;
-    else if (D != info.dimensions)
+    if (D != info.dimensions)
       return false; // dimension mismatch
     
     // TODO: support non-dense layouts
-- 
2.43.0


From bc20142c7199f61bb715971fce32493b1f393b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 39/41] fix: exchanging the halves of the columns of a
 non-square matrix

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From d35d7105604c9d99322697ed89e35f0f01c59de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 40/41] fix: Kronecker product of matrices with a scale of
 another type

---
 src/vsip/impl/matvec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/matvec.hpp b/src/vsip/impl/matvec.hpp
index 93f8e3c..67ed805 100644
--- a/src/vsip/impl/matvec.hpp
+++ b/src/vsip/impl/matvec.hpp
@@ -255,7 +255,7 @@ impl_kron( T0 alpha, Matrix<T1, Block1> v, Matrix<T2, Block2> w)
       for ( index_type k = v.size(1); k-- > 0; )
         for ( index_type l = w.size(1); l-- > 0; ) 
         {
-          T0 val = alpha * v.get(i,k) * w.get(j,l);
+          typename return_type::value_type val = alpha * v.get(i,k) * w.get(j,l);
           r.put( j + (i * w.size(0)), l + (k * w.size(1)), val );
         }
 
-- 
2.43.0


From 9ce8f6bfd309452fb80aa336ffdf1935657d37a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 41/41] fix: the duration of zero is zero

---
 src/ovxx/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/chrono.hpp b/src/ovxx/chrono.hpp
index 7e7d824..1ac8cd0 100644
--- a/src/ovxx/chrono.hpp
+++ b/src/ovxx/chrono.hpp
@@ -41,7 +41,7 @@ struct duration
   duration &operator-=(duration const &d)
   { value_ -= d.value_; return *this;}
 
-  static duration zero() { return duration();}
+  static duration zero() { return duration(0);}
 
 private:
   rep value_;
-- 
2.43.0

