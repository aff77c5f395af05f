From c61f6c2c9d17c0b15d81bfa0b29925241205209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 01/81] fix: initialise the number of measures of mc_generic

---
 c++/triqs/mc_tools/mc_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..cbff7f6 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -431,7 +431,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From 4da068bf1567a75ee21777eda190eaa3f4ef015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 02/81] fix: stop the timer of an empty Monte Carlo run

---
 c++/triqs/mc_tools/mc_generic.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index cbff7f6..d138f43 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -247,7 +247,10 @@ namespace triqs::mc_tools {
 
       timer_run = {};
       timer_run.start();
-      if (n_cycles == 0) return 0;
+      if (n_cycles == 0) {
+        timer_run.stop();
+        return 0;
+      }
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
-- 
2.43.0


From c2fe2d60bc1442e51eb42f272e80470fd01af820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 03/81] fix: a Monte Carlo run interrupted by a signal in its
 last cycle is not finished

---
 c++/triqs/mc_tools/mc_generic.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index d138f43..a91e006 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -254,7 +254,7 @@ namespace triqs::mc_tools {
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
-      bool stop_it = false, finished = false, infinite = (n_cycles < 0);
+      bool stop_it = false, finished = false, interrupted = false, infinite = (n_cycles < 0);
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -286,6 +286,7 @@ namespace triqs::mc_tools {
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
           // current cycle interrupted, stop calculation below
+          interrupted = true;
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -307,7 +308,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From 0be89efc1c4f6079c167c3ad8224475bfde3ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 04/81] fix: report an exception raised in a Monte Carlo run
 without MPI environment

---
 c++/triqs/mc_tools/mc_generic.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index a91e006..8155e88 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -254,7 +254,7 @@ namespace triqs::mc_tools {
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
-      bool stop_it = false, finished = false, interrupted = false, infinite = (n_cycles < 0);
+      bool stop_it = false, finished = false, interrupted = false, local_emergency = false, infinite = (n_cycles < 0);
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -290,9 +290,10 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
-            node_monitor->request_emergency_stop();
-          else
+          if (rethrow_exception) {
+            local_emergency = true;
+            if (node_monitor) node_monitor->request_emergency_stop();
+          } else
             c.abort(2);
         }
 
@@ -312,6 +313,7 @@ namespace triqs::mc_tools {
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
+        stop_it |= local_emergency;
         if (node_monitor) stop_it |= node_monitor->emergency_occured();
 
       } // end main NC loop
@@ -325,7 +327,8 @@ namespace triqs::mc_tools {
       if (node_monitor) {
         node_monitor->finalize_communications();
         if (node_monitor->emergency_occured()) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
-      }
+      } else if (local_emergency)
+        TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception";
 
       // final reporting
       if (status == 1) report << "mc_generic stops because of stop_callback" << std::endl;
-- 
2.43.0


From 9365e228bdd2441894aeec102d63acdcaa86b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 05/81] fix: text added to a copied exception overwrote its
 message

---
 c++/triqs/utility/exceptions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/utility/exceptions.hpp b/c++/triqs/utility/exceptions.hpp
index 002948e..5a980da 100644
--- a/c++/triqs/utility/exceptions.hpp
+++ b/c++/triqs/utility/exceptions.hpp
@@ -45,7 +45,7 @@ namespace triqs {
 
     public:
     exception() throw() : std::exception() {} // _trace = utility::stack_trace(); }
-    exception(exception const &e) throw() : acc(e.acc.str()), _trace(e._trace), _what(e._what) {}
+    exception(exception const &e) throw() : acc(e.acc.str(), std::ios_base::in | std::ios_base::out | std::ios_base::ate), _trace(e._trace), _what(e._what) {}
     virtual ~exception() throw() {}
     template <typename T> exception &operator<<(T const &x) {
       acc << x;
-- 
2.43.0


From 75d638165b961aa75ab7c7875119ad3922513bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 06/81] fix: integer indices of fundamental operators beyond 32
 bits were truncated in hdf5

---
 c++/triqs/hilbert_space/fundamental_operator_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.cpp b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
index 69c0d05..ad2ad61 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.cpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
@@ -27,14 +27,14 @@ namespace triqs {
 
       // a little visitor for reduction to string
       struct variant_visitor {
-        std::string operator()(int i) const { return "i" + std::to_string(i); }
+        std::string operator()(long i) const { return "i" + std::to_string(i); }
         std::string operator()(std::string const &s) const { return "s" + s; }
       };
 
       // decode the string
       std::variant<long, std::string> string_to_variant(std::string const &s) {
         switch (s[0]) {
-          case 'i': return std::stoi(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
+          case 'i': return std::stol(s.c_str() + 1); // the variant is a long. Skip the first char and recover it
           case 's': return s.c_str() + 1;            // the variant is a string. Just skip the first char
           default: TRIQS_RUNTIME_ERROR << "Variant indices absent in h5 read";
         }
-- 
2.43.0


From 78d2490a7b42994cd9d8e5ac55a061231d1b3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 07/81] fix: Fock state of an operator at position 31 or beyond

---
 c++/triqs/hilbert_space/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/hilbert_space.hpp b/c++/triqs/hilbert_space/hilbert_space.hpp
index 85e5560..3332eb8 100644
--- a/c++/triqs/hilbert_space/hilbert_space.hpp
+++ b/c++/triqs/hilbert_space/hilbert_space.hpp
@@ -107,7 +107,7 @@ namespace triqs {
  */
       fock_state_t get_fock_state(fundamental_operator_set const &fops, std::set<fundamental_operator_set::indices_t> const &indices) const {
         fock_state_t f = 0;
-        for (auto const &index : indices) f += 1 << fops[index];
+        for (auto const &index : indices) f += fock_state_t(1) << fops[index];
         return f;
       }
 
-- 
2.43.0


From 651911abf038a7d429ff483b8e4c9dc3ae80f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 08/81] fix: subtracting a many-body operator from itself in
 place iterated over erased monomials

---
 c++/triqs/operators/many_body_operator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..c566833 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -250,6 +250,10 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (this == &op) { // the loop below would erase the monomials it iterates over
+          monomials.clear();
+          return *this;
+        }
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From e0ef6996ce293916e1187d61e945007cf6d90e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 09/81] fix: integer indices beyond 32 bits were truncated when
 printing an operator

---
 c++/triqs/operators/many_body_operator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 41d5ba0..3f37bf0 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -34,7 +34,7 @@ namespace triqs {
     struct print_visitor { // TODO C17 use generic lambda + if constexpr
       std::ostream &os;
       void operator()(std::string const &x) { os << '\'' << x << '\''; }
-      void operator()(int i) { os << i; }
+      void operator()(long i) { os << i; }
     };
 
     std::ostream &operator<<(std::ostream &os, canonical_ops_t const &op) {
-- 
2.43.0


From 1263fc29d1ba073d29fd57ee7b6e338e2633420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 10/81] fix: reading a many-body operator from hdf5 kept the
 terms it had before

---
 c++/triqs/operators/many_body_operator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 3f37bf0..8f366b7 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -160,6 +160,8 @@ namespace triqs {
 
       // ---- Now we must reverse the operations of write
 
+      op.monomials.clear();
+
       auto r_fops = fops.data(); // the data vector v[int] -> indices inverting fops[indices] -> n
 
       for (auto const &mon : datavec) {
-- 
2.43.0


From 759e1539c1aeda9abc2436e999763786bc6d477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 11/81] fix: sign of operators acting on states with more than
 16 orbitals

---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From 69c8b2d00842f1c0300a8c38723242e150e13af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 12/81] fix: matrix elements of the hybridization were stored
 as those of the Hamiltonian in space_partition

---
 c++/triqs/hilbert_space/space_partition.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index b69e5ba..53873d6 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -72,6 +72,7 @@ namespace triqs {
         for (idx_t i = 0; i < size; ++i) {
           tmp_state(i)        = amplitude_t(1);
           state_t final_state = H(tmp_state);
+          bool store          = store_matrix_elements; // only those of H
 
           auto mapping = [&](idx_t f, amplitude_t amplitude) {
             using triqs::utility::is_zero;
@@ -80,7 +81,7 @@ namespace triqs {
             auto f_subspace = subspaces.find_set(f);
             if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
 
-            if (store_matrix_elements) matrix_elements[std::make_pair(i, f)] = amplitude;
+            if (store) matrix_elements[std::make_pair(i, f)] = amplitude;
           };
 
           // Iterate over non-zero final amplitudes
@@ -90,6 +91,7 @@ namespace triqs {
           // redo for additionnal Hyb
           if (not Hyb.is_empty()) {
             final_state = Hyb(tmp_state);
+            store       = false;
             foreach (final_state, mapping)
               ;
           }
-- 
2.43.0


From 0890c177bfdc1dfe36b03a920710a201aea9a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 13/81] fix: merging subspaces for a general operator left
 one-to-many connections

---
 c++/triqs/hilbert_space/space_partition.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index 53873d6..e5a3862 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -121,7 +121,8 @@ namespace triqs {
         matrix_element_map_t Cd_elements, C_elements;
         std::multimap<idx_t, idx_t> Cd_connections, C_connections;
 
-        auto size = tmp_state.size();
+        auto size     = tmp_state.size();
+        auto n_before = n_subspaces();
 
         // Fill connection multimaps
         for (idx_t i = 0; i < size; ++i) {
@@ -187,6 +188,9 @@ namespace triqs {
 
         _update_index();
 
+        // The merged subspaces can have connections to several subspaces again: repeat until nothing is left to merge
+        if (n_subspaces() != n_before) merge_subspaces(Cd, C, false);
+
         return std::make_pair(Cd_elements, C_elements);
       }
 
-- 
2.43.0


From fa3a8ea70ec68bd882f98a22feac23050dff9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 14/81] fix: time point made from beta was the lower end of the
 segment

---
 c++/triqs/utility/time_pt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..9c5673b 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,7 +165,8 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        if (x / beta >= 1.0) return get_upper_pt(); // Nmax is not representable as a double
+        uint64_t n = static_cast<double>(time_pt::Nmax) * (x / beta);
         return time_pt(n, beta);
       }
     };
-- 
2.43.0


From 19179b3d88dbefc6d05ca105f6290bf0985f7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 15/81] fix: k-fold trials of det_manip checked their positions
 too late and incompletely

---
 c++/triqs/det_manip/det_manip.hpp | 37 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..af908b8 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -613,9 +613,8 @@ namespace triqs {
         TRIQS_ASSERT(j.size() == x.size());
         TRIQS_ASSERT(x.size() == y.size());
 
-        k = i.size();
-        reserve(N + k, k);
-        last_try = InsertK;
+        auto const n_ins = static_cast<long>(i.size());
+        if (n_ins == 1) return try_insert(i[0], j[0], x[0], y[0]);
 
         auto const argsort = [](auto const &vec) {
           std::vector<long> idx(vec.size());
@@ -626,6 +625,16 @@ namespace triqs {
         std::vector<long> idx = argsort(i);
         std::vector<long> idy = argsort(j);
 
+        // check consistency
+        for (long l = 0; l < n_ins; ++l) {
+          TRIQS_ASSERT(0 <= i[l] and i[l] < N + n_ins and (l == 0 or i[idx[l - 1]] != i[idx[l]]));
+          TRIQS_ASSERT(0 <= j[l] and j[l] < N + n_ins and (l == 0 or j[idy[l - 1]] != j[idy[l]]));
+        }
+
+        k = n_ins;
+        reserve(N + k, k);
+        last_try = InsertK;
+
         // store it for complete_operation
         for (long l = 0; l < k; ++l) {
           wk.i[l] = i[idx[l]];
@@ -634,12 +643,6 @@ namespace triqs {
           wk.y[l] = y[idy[l]];
         };
 
-        // check consistency
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(wk.i[l] != wk.i[l + 1] and 0 <= wk.i[l] and wk.i[l] < N + k);
-          TRIQS_ASSERT(wk.j[l] != wk.j[l + 1] and 0 <= wk.j[l] and wk.j[l] < N + k);
-        }
-
         // w1.ksi = Delta(x_values,y_values) - Cw.MB using BLAS
         for (long m = 0; m < k; ++m) {
           for (long n = 0; n < k; ++n) { wk.ksi(m, n) = f(wk.x[m], wk.y[n]); }
@@ -815,19 +818,21 @@ namespace triqs {
         std::sort(j.begin(), j.end());
 
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(N >= 2);
         TRIQS_ASSERT(i.size() == j.size());
 
-        k = i.size();
-        reserve(N - k, k);
-        last_try = RemoveK;
+        auto const n_rem = static_cast<long>(i.size());
+        if (n_rem == 1) return try_remove(i[0], j[0]);
 
         // check inputs
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(i[l] != i[l + 1] and 0 <= i[l] and i[l] < N);
-          TRIQS_ASSERT(j[l] != j[l + 1] and 0 <= j[l] and j[l] < N);
+        for (long l = 0; l < n_rem; ++l) {
+          TRIQS_ASSERT(0 <= i[l] and i[l] < N and (l == 0 or i[l - 1] != i[l]));
+          TRIQS_ASSERT(0 <= j[l] and j[l] < N and (l == 0 or j[l - 1] != j[l]));
         }
 
+        k = n_rem;
+        reserve(N, k);
+        last_try = RemoveK;
+
         for (long l = 0; l < k; ++l) {
           wk.i[l]     = i[l];
           wk.j[l]     = j[l];
-- 
2.43.0


From cd2eb74d5470e5f1a62f8d1d7d4a2b9fe78322c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 16/81] fix: try_change_row of det_manip accepted a negative
 row

---
 c++/triqs/det_manip/det_manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index af908b8..cdef089 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -968,7 +968,7 @@ namespace triqs {
        */
       value_type try_change_row(long i, x_type const &x) {
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(i < N);
+        TRIQS_ASSERT(0 <= i and i < N);
         w1.i     = i;
         last_try = ChangeRow;
         w1.ireal = row_num[i];
-- 
2.43.0


From 197f7d6360b88f43a9a2f462ddcaa55019d4ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 17/81] fix: moving and swapping det_manip lost thresholds, the
 size of the work space and a pending refill

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cdef089..cf26794 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -199,6 +199,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -208,8 +210,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From 559c17e9b0f3ae3996fc9121227f1ddcf4b70fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 18/81] fix: work space of a det_manip read from hdf5 kept its
 previous size

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cf26794..fe986d9 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -106,6 +106,8 @@ namespace triqs {
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
         g.last_try = NoTry;
+        g.w1.resize(g.Nmax);
+        g.wk.resize(g.Nmax, g.kmax);
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
         h5_read(gr, "row_num", g.row_num);
-- 
2.43.0


From 9585c9a7c049231fb92f677517ebbd636182478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 19/81] fix: rolling an empty det_manip accessed its first row

---
 c++/triqs/det_manip/det_manip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index fe986d9..eccfe07 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1332,6 +1332,7 @@ namespace triqs {
        * WHY is it like this ???? : try_roll : return det +1/-1.
        */
       int roll_matrix(RollDirection roll) {
+        if (N == 0) return 1;
         long tmp;
         const long NN = N;
         switch (roll) {
-- 
2.43.0


From f619f5d0452d5111b121d70d375a577631f706b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 20/81] fix: a det_manip whose regeneration fails kept its
 determinant without its sign

---
 c++/triqs/det_manip/det_manip.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index eccfe07..1c89eab 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -398,7 +398,7 @@ namespace triqs {
 
       /** det M of the current state of the matrix.  */
       det_type determinant() {
-        if (is_singular()) regenerate();
+        if (is_singular(det)) regenerate();
         return sign * det;
       }
 
@@ -1169,9 +1169,9 @@ namespace triqs {
         matrix_type res(N, N);
         for (int i = 0; i < N; i++)
           for (int j = 0; j < N; j++) res(i, j) = f(x_values[i], y_values[j]);
-        det = nda::determinant(res);
+        auto const det_res = nda::determinant(res);
 
-        if (is_singular()) TRIQS_RUNTIME_ERROR << "ERROR in det_manip regenerate: Determinant is singular";
+        if (is_singular(det_res)) TRIQS_RUNTIME_ERROR << "ERROR in det_manip regenerate: Determinant is singular";
         res = inverse(res);
 
         if (do_check) { // check that mat_inv is close to res
@@ -1195,6 +1195,7 @@ namespace triqs {
         }
 
         // since we have the proper inverse, replace the matrix and the det
+        det             = det_res;
         mat_inv(RN, RN) = res;
         n_opts          = 0;
 
@@ -1213,7 +1214,7 @@ namespace triqs {
       void check_mat_inv() { _regenerate_with_check(true, precision_warning, precision_error); }
 
       /// it the det 0 ? I.e. (singular_threshold <0 ? not std::isnormal(std::abs(det)) : (std::abs(det)<singular_threshold))
-      bool is_singular() const { return (singular_threshold < 0 ? not std::isnormal(std::abs(det)) : (std::abs(det) < singular_threshold)); }
+      bool is_singular(value_type d) const { return (singular_threshold < 0 ? not std::isnormal(std::abs(d)) : (std::abs(d) < singular_threshold)); }
 
       //------------------------------------------------------------------------------------------
       public:
-- 
2.43.0


From 940d6af8af93d80e3be8a985bc1af673246019a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 21/81] fix: do not move a bin onto itself when all linear bins
 are compressed into one

---
 c++/triqs/stat/accumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..633a5df 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -94,7 +94,7 @@ namespace triqs::stat {
         // Last new bin is special: last old bin could be filled below capacity
         int new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
         auto &new_last_bin     = bins[n_bins_new - 1];
-        new_last_bin           = std::move(bins[compression_factor * (n_bins_new - 1)]);
+        if (n_bins_new > 1) { new_last_bin = std::move(bins[compression_factor * (n_bins_new - 1)]); }
         // If n_bins_last_chunk == 1, we have already copied its value above
         if (n_bins_last_chunk > 1) {
           for (int j = 1; j < n_bins_last_chunk - 1; j++) { new_last_bin += bins[compression_factor * (n_bins_new - 1) + j]; }
-- 
2.43.0


From 1819aacd48d6d953fdea548d38699027cfd96cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 22/81] fix: store and restore the maximum number of
 logarithmic bins of an accumulator

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 633a5df..e19e373 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      if (gr.has_key("max_n_bins")) { h5_read(gr, "max_n_bins", l.max_n_bins); } // not stored by older versions
     }
 
   } // namespace details
-- 
2.43.0


From b28d9e8686b78aa902106b4a9e1b6545c791b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 23/81] fix: count a NaN passed to a histogram as lost instead
 of indexing out of bounds

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..31e6743 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!(x >= a && x <= b)) // also true for NaN
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From b7c69911dd218e5866a6557f13b68add96f08a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 24/81] fix: use the total number of samples on every rank in
 the MPI jackknife

---
 c++/triqs/stat/jackknife.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..a5385e9 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
-- 
2.43.0


From c16c2f79acdfe469cd74bd25994f8d103d00cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 25/81] fix: correct the bias of the MPI jackknife with the
 number of samples of all ranks

---
 c++/triqs/stat/jackknife.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index a5385e9..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From 11ddeaa0f149563dcdd05d96f9fac34e569f9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 26/81] fix: closest mesh point of a linear mesh with a single
 point

The inverse step of such a mesh is infinite, so the index was computed from 0 * inf.
---
 c++/triqs/mesh/bases/linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/mesh/bases/linear.hpp b/c++/triqs/mesh/bases/linear.hpp
index dc91d8e..ac9033f 100644
--- a/c++/triqs/mesh/bases/linear.hpp
+++ b/c++/triqs/mesh/bases/linear.hpp
@@ -135,6 +135,7 @@ namespace triqs::mesh::details {
 
     [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const noexcept {
       EXPECTS(is_value_valid(cmp.value));
+      if (L == 1) return 0;
       return index_t((cmp.value - xmin) * delta_x_inv + 0.5);
     }
 
-- 
2.43.0


From 41321b24a50c7754878b82aa889ac069e3623510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 27/81] fix: compare the dimensions and units of brzone and
 cyclat meshes

The hash is a plain sum, so e.g. meshes with permuted dimensions compared equal.
---
 c++/triqs/mesh/brzone.hpp | 2 +-
 c++/triqs/mesh/cyclat.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..3b2f7e6 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return dims_ == M.dims_ and bz_.units() == M.bz_.units(); }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..2e7a299 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return dims_ == M.dims_ and units_ == M.units_; }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
-- 
2.43.0


From b5a074ca11918190712475592bca72b07cee45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 28/81] fix: closest point of a brzone mesh with a skewed or
 anisotropic cell

The nearest mesh point need not be a corner of the cell containing k. Search all points which can be closer than the one obtained by rounding.
---
 c++/triqs/mesh/brzone.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 3b2f7e6..a097926 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -226,29 +226,31 @@ namespace triqs::mesh {
         // calculate k in the brzone basis
         auto ks      = nda::stack_vector<double, 3>{k[0], k[1], k[2]};
         auto k_units = transpose(units_inv_) * ks;
-        auto n       = nda::floor(k_units);
 
-        // calculate position relative to neighbors in mesh
-        auto w = k_units - n;
+        // distance to the mesh point obtained by rounding each coordinate, as an upper bound
+        nda::stack_vector<double, 3> w;
+        for (auto d : range(3)) w[d] = k_units[d] - std::round(k_units[d]);
+        double const dst_max = nda::norm(transpose(units()) * w);
 
-        // prepare result container and distance measure
-        auto dst = std::numeric_limits<double>::infinity();
-
-        // check flatness along mesh dimensions
-        long r1 = std::min(dims()[0], 2l);
-        long r2 = std::min(dims()[1], 2l);
-        long r3 = std::min(dims()[2], 2l);
+        // The coordinates of a closer point differ from k_units by at most that distance times the norm of the dual vectors.
+        // Directions beyond the dimension of the lattice are orthogonal to the others.
+        auto candidates = [&](int d) {
+          double const r = (d < bz_.lattice().ndim() ? dst_max * nda::norm(units_inv_(range::all, d)) + 1e-10 : 0.0);
+          long const i   = std::lround(k_units[d]);
+          return range(std::min(i, long(std::ceil(k_units[d] - r))), std::max(i, long(std::floor(k_units[d] + r))) + 1);
+        };
 
         // find nearest neighbor by comparing distances
+        auto dst = std::numeric_limits<double>::infinity();
         nda::stack_vector<long, 3> res;
-        for (auto const &[i1, i2, i3] : itertools::product_range(r1, r2, r3)) {
+        for (auto const &[i1, i2, i3] : itertools::product(candidates(0), candidates(1), candidates(2))) {
           auto iv   = nda::stack_vector<long, 3>{i1, i2, i3};
-          auto dstp = nda::norm(transpose(units()) * (w - iv));
+          auto dstp = nda::norm(transpose(units()) * (k_units - iv));
 
           // update result when distance is smaller than current
           if (dstp < dst) {
             dst = dstp;
-            res = n + iv;
+            res = iv;
           }
         }
 
-- 
2.43.0


From 3abf91149b9738c479d565d0eed284aa759a5816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 29/81] fix: default constructed brillouin_zone is the one of
 the cubic lattice

Its reciprocal matrix missed the factor 2 pi, and was not preserved by hdf5.
---
 c++/triqs/lattice/brillouin_zone.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index f3687f9..db048bc 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -31,10 +31,7 @@ namespace triqs {
       using value_t = k_t; // domain concept
 
       // Default construction, 3d cubic lattice
-      brillouin_zone() {
-        K_reciprocal     = nda::eye<double>(3);
-        K_reciprocal_inv = K_reciprocal;
-      }
+      brillouin_zone() : brillouin_zone(bravais_lattice{}) {}
 
       brillouin_zone(brillouin_zone &&)                 = default;
       brillouin_zone(brillouin_zone const &)            = default;
-- 
2.43.0


From 00aee0d910296f8d074b430926033cecc7a370e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 30/81] fix: brillouin_zone conversions use the first ndim
 components of their argument

lattice_to_real_coordinates and real_to_lattice_coordinates multiplied a 3 x ndim matrix
with the whole argument, so that momenta (which have three components) were refused in
less than three dimensions, unlike in the same functions of bravais_lattice.
---
 c++/triqs/lattice/brillouin_zone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index db048bc..5188992 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -68,12 +68,12 @@ namespace triqs {
 
       /// Transform from lattice to real coordinates
       template <typename K> k_t lattice_to_real_coordinates(K const &k) const {
-        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       /// Transform from real to lattice coordinates
       template <typename K> k_t real_to_lattice_coordinates(K const &k) const {
-        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       // ------------------- Comparison -------------------
-- 
2.43.0


From f7128f9d43d8fbbd1921e958d1876bf3cc745952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 31/81] fix: tight_binding checks all sizes before comparing
 hopping matrices

The hermiticity check of one hopping compared its matrix with that of the opposite
displacement, the size of which had not been checked yet.
---
 c++/triqs/lattice/tight_binding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index ab8f663..d24fac7 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -38,6 +38,8 @@ namespace triqs {
           TRIQS_RUNTIME_ERROR << "the first dim matrix is of size " << first_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
         if (second_dim(overlap_mat_vec_[i]) != n_orbitals())
           TRIQS_RUNTIME_ERROR << "the second dim matrix is of size " << second_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
+      }
+      for (int i = 0; i < displ_vec_.size(); ++i) {
 
         // check hermiticity of hoppings: Hij(+R)= Hji(-R)* by looping of all displacements again
         bool found = false;
-- 
2.43.0


From c8f38c677e261f002e55db6cb516e0cdfabd4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 32/81] fix: Fourier transform of a tight_binding without
 hoppings is zero

The first element of an empty vector was accessed. TBLattice has no hoppings by default.
---
 c++/triqs/lattice/tight_binding.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/tight_binding.hpp b/c++/triqs/lattice/tight_binding.hpp
index a657b6b..5d86b15 100644
--- a/c++/triqs/lattice/tight_binding.hpp
+++ b/c++/triqs/lattice/tight_binding.hpp
@@ -101,7 +101,14 @@ namespace triqs {
             return nda::blas::outer_product(exp_j, overlap_mat_vec_[j]);
           }
         };
-        auto res = make_regular(vals(0));
+        using res_t = decltype(make_regular(vals(0)));
+        if (displ_vec_.empty()) { // no hoppings at all
+          if constexpr (nda::ArrayOfRank<K, 1>)
+            return res_t::zeros(n_orbitals(), n_orbitals());
+          else
+            return res_t::zeros(k_ndim.shape()[0], n_orbitals(), n_orbitals());
+        }
+        res_t res = make_regular(vals(0));
         for (int i = 1; i < displ_vec_.size(); ++i) res += vals(i);
         return res;
       }
-- 
2.43.0


From 2508bb4b0097ae3ce2e6ce0ab64b38c18528256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 33/81] fix: dos and dos_patch refuse flat bands

With equal energies the width of the bins is zero, and the densities were added to
the bin of index int(NaN), out of bounds.
---
 c++/triqs/lattice/tight_binding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index d24fac7..cbb19ef 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -40,7 +40,6 @@ namespace triqs {
           TRIQS_RUNTIME_ERROR << "the second dim matrix is of size " << second_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
       }
       for (int i = 0; i < displ_vec_.size(); ++i) {
-
         // check hermiticity of hoppings: Hij(+R)= Hji(-R)* by looping of all displacements again
         bool found = false;
         for (int j = 0; j < displ_vec_.size(); ++j) {
@@ -86,6 +85,7 @@ namespace triqs {
       array<double, 1> epsilon(neps);
       double epsmax = max_element(eval);
       double epsmin = min_element(eval);
+      if (not(epsmax > epsmin)) TRIQS_RUNTIME_ERROR << "dos : all energies are equal, they can not be binned";
       double deps   = (epsmax - epsmin) / neps;
       // for (int i =0; i< neps; ++i) epsilon(i)= epsmin+i/(neps-1.0)*(epsmax-epsmin);
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + (i + 0.5) * deps;
@@ -179,6 +179,7 @@ namespace triqs {
 
       // define the epsilon mesh, etc.
       array<double, 1> epsilon(neps);
+      if (not(epsmax > epsmin)) TRIQS_RUNTIME_ERROR << "dos_patch : all energies are equal, they can not be binned";
       double deps = (epsmax - epsmin) / neps;
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + i / (neps - 1.0) * (epsmax - epsmin);
 
-- 
2.43.0


From 8d505162e41321de66a5f5982600e5c3962c32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 34/81] fix: quotient of two Matsubara frequencies

operator/ returned the product.
---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From 7938c0ffb1f81216e3d8bb2bc0d4703c0dd8a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 35/81] fix: atom_diag keeps the quantum numbers with their
 subspaces when it sorts them by energy

---
 c++/triqs/atom_diag/impl/worker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 2cca809..a088078 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -317,17 +317,21 @@ namespace triqs {
 
       // Reorder the block along their minimal energy
       {
-        auto tmp = hdiag->sub_hilbert_spaces;
+        auto tmp    = hdiag->sub_hilbert_spaces;
+        auto tmp_qn = hdiag->quantum_numbers;
         std::map<int, int> remap;
         int i = 0;
         for (auto const &x : eign_map) { // in order of min energy !
           hdiag->eigensystems[i] = x.second;
           tmp[i]                 = hdiag->sub_hilbert_spaces[x.first.second];
           tmp[i].set_index(i);
+          // The quantum numbers are only known if they were used for the partition
+          if (!tmp_qn.empty()) tmp_qn[i] = hdiag->quantum_numbers[x.first.second];
           remap[x.first.second] = i;
           ++i;
         }
         std::swap(tmp, hdiag->sub_hilbert_spaces);
+        std::swap(tmp_qn, hdiag->quantum_numbers);
         auto remap_connection = [&](matrix<long> &connection) {
           auto c2 = connection;
           for (int n = 0; n < first_dim(connection); ++n)
-- 
2.43.0


From eb17a9970fdc6a7f8b65e05f91643a1259e6d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 36/81] fix: atom_diag without the vacuum state reports no
 vacuum subspace

---
 c++/triqs/atom_diag/impl/atom_diag.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index dd7ca3c..5313c61 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -80,7 +80,8 @@ namespace triqs {
 
     ATOM_DIAG_METHOD(void, compute_vacuum()) {
       // Compute vacuum vector in the eigenbasis
-      vacuum() = 0;
+      vacuum()              = 0;
+      vacuum_subspace_index = -1; // the vacuum may have been filtered out
       for (int sp : range(sub_hilbert_spaces.size())) {
         if (sub_hilbert_spaces[sp].has_state(fock_state_t(0))) {
           vacuum_subspace_index               = sp;
-- 
2.43.0


From 0256ed7b2467687d37e537a2184ed677c87976fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 37/81] fix: reading an atom_diag from HDF5 replaces the
 operator matrices it held

---
 c++/triqs/atom_diag/impl/atom_diag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index 5313c61..4cbb803 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -226,7 +226,7 @@ namespace triqs {
       h5::read(gr, "annihilation_connection", ad.annihilation_connection);
 
       auto read_sparse = [&](std::string na, std::vector<std::vector<matrix_t>> &Mvv) {
-        Mvv.resize(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
+        Mvv.assign(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
         auto gr2 = gr.open_group(na);
         for (auto s : gr2.get_all_dataset_names()) {
           std::stringstream ss(s);
-- 
2.43.0


From 94a22f00d770aa3dad8d42066fd5b6afee36b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 38/81] fix: quantum_number_eigenvalues_checked also refuses
 imaginary off-diagonal elements

---
 c++/triqs/atom_diag/impl/functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/functions.cpp b/c++/triqs/atom_diag/impl/functions.cpp
index 482d93f..3310aa7 100644
--- a/c++/triqs/atom_diag/impl/functions.cpp
+++ b/c++/triqs/atom_diag/impl/functions.cpp
@@ -154,7 +154,7 @@ namespace triqs {
       if (!commutator.is_almost_zero()) TRIQS_RUNTIME_ERROR << "The operator is not a quantum number";
 
       auto d = atom.get_full_hilbert_space_dim();
-      matrix<quantum_number_t> M(d, d);
+      ATOM_DIAG_T::matrix_t M(d, d);
       M() = 0;
       std::vector<std::vector<quantum_number_t>> result;
 
@@ -163,7 +163,7 @@ namespace triqs {
         for (auto const &x : op) {
           auto b_m = atom.get_matrix_element_of_monomial(x.monomial, sp);
           if (b_m.first == -1) continue;
-          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += real(x.coef * b_m.second);
+          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += x.coef * b_m.second;
         }
       }
       if (!is_diagonal(M)) TRIQS_RUNTIME_ERROR << "The matrix of the operator is not diagonal !!!";
@@ -171,7 +171,7 @@ namespace triqs {
       for (int sp = 0; sp < atom.n_subspaces(); ++sp) {
         auto dim = atom.get_subspace_dim(sp);
         result.push_back(std::vector<quantum_number_t>(dim, 0));
-        for (int i = 0; i < dim; ++i) result.back()[i] = M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i));
+        for (int i = 0; i < dim; ++i) result.back()[i] = std::real(M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i)));
       }
 
       return result;
-- 
2.43.0


From 394489a73dff482d7944813298943e8e2f89521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 39/81] fix: dichotomy reports success when the precision is
 reached exactly

---
 python/triqs/utility/dichotomy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/utility/dichotomy.py b/python/triqs/utility/dichotomy.py
index e66d78c..06ab81c 100644
--- a/python/triqs/utility/dichotomy.py
+++ b/python/triqs/utility/dichotomy.py
@@ -29,7 +29,7 @@ def dichotomy(function, x_init, y_value, precision_on_y, delta_x,
     Starting at ``x_init``, which is used as the lower upper/bound, 
     dichotomy finds first the upper/lower bound by adding/subtracting ``delta_x``. 
     Then bisection is used to refine :math:`x` until
-    ``abs(f(x) - y_value) < precision_on_y`` or ``max_loops`` is reached.
+    ``abs(f(x) - y_value) <= precision_on_y`` or ``max_loops`` is reached.
    
     Parameters
     ----------
@@ -41,7 +41,7 @@ def dichotomy(function, x_init, y_value, precision_on_y, delta_x,
     y_value : double
         Target value for y.
     precision_on_y : double
-        Stops if ``abs(f(x) - y_value) < precision_on_y``.
+        Stops if ``abs(f(x) - y_value) <= precision_on_y``.
     delta_x : double
         :math:`\Delta x` added/subtracted from ``x_init`` until the second bound is found.
     max_loops : integer, optional
@@ -107,7 +107,7 @@ def dichotomy(function, x_init, y_value, precision_on_y, delta_x,
         if verbosity > 2:
             mpi.report("%(PR)s%(x1)f < %(x_name)s < %(x2)f"%locals())
             mpi.report("%(PR)s%(y1)f < %(y_name)s < %(y2)f"%locals())
-    if abs(yfound - y_value) < precision_on_y :
+    if abs(yfound - y_value) <= precision_on_y :
         if verbosity>0:
             mpi.report("%(PR)s%(x_name)s found in %(nbre_loop)d iterations : "%locals())
             mpi.report("%(PR)s%(y_name)s = %(yfound)f;%(x_name)s = %(x)f"%locals())
-- 
2.43.0


From 946fe292eff0d2563db875fd8c3aa5ed8d90dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 40/81] fix: bound_and_bisect accepts a bound at which the
 function is exactly zero

---
 python/triqs/utility/bound_and_bisect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/bound_and_bisect.py b/python/triqs/utility/bound_and_bisect.py
index b964b2c..ed71d0d 100644
--- a/python/triqs/utility/bound_and_bisect.py
+++ b/python/triqs/utility/bound_and_bisect.py
@@ -26,14 +26,14 @@ def determine_bounds(F, x_0, dx, maxiter):
     if F(x_0 + dx) - F(x_0) < 0: dx *= -1.0 
     # Determine lower bound
     x = x_0; i = 0
-    while not F(x) < 0.0:
+    while not F(x) <= 0.0:
         x -= dx
         i += 1
         if i > maxiter: raise ValueError("determine_bounds: cannot find lower bound.")
     a = x
     # Determine upper bound
     x = x_0; i = 0
-    while not F(x) > 0.0:
+    while not F(x) >= 0.0:
         x += dx
         i += 1
         if i > maxiter: raise ValueError("determine_bounds: cannot find upper bound.")
-- 
2.43.0


From ea31243358553415766fd7074ed749befa7b1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 41/81] fix: DistributionOnNodes runs on several ranks, also
 for an empty list and for items that are zero or arrays

---
 python/triqs/utility/dist_on_nodes.py | 31 ++++++++++++---------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index aee979c..ed18168 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -48,7 +48,7 @@ class DistributionOnNodes:
         if mpi.size==1 : # single machine. Avoid the fork
             while not(self.finished()):
                 n = next(self)
-                if n!=None : 
+                if n is not None : 
                     self.treate(self.the_function(n),0)
             return
 
@@ -57,17 +57,14 @@ class DistributionOnNodes:
         node_running,node_stopped= mpi.size*[False],mpi.size*[False]
 
         if mpi.rank==0 :
-          while not(self.finished()) or pid or [n for n in node_running if n] != [] :
+          while not(self.finished()) or pid or any(node_running) or not all(node_stopped[1:]) :
               # Treat the request which have self.finished
               def keep_request(r) :
-                  #if not(mpi.test(r)) :  return True
-                  #if r.message !=None : self.treate(*r.message)
-                  #node_running[r.status.source] = False
-                  T = r.test()
-                  if T is None :  return True
-                  value = T[0]
-                  if value !=None : self.treate(*value)
-                  node_running[T[1].source] = False
+                  node, request = r
+                  done, message = request.test()
+                  if not done : return True
+                  if message[0] is not None : self.treate(*message)
+                  node_running[node] = False
                   return False
               RequestList = list(filter(keep_request,RequestList))
               # send new calculation to the nodes or "stop" them
@@ -77,24 +74,24 @@ class DistributionOnNodes:
                   if not(self.finished()) :
                       mpi.send(next(self),node) # send the data for the computation
                       node_running[node] = True
-                      RequestList.append(mpi.irecv(node)) #Post the receive
+                      RequestList.append((node, mpi.world.irecv(source=node))) #Post the receive
                   else :
                       node_stopped[node] = True
 
               # Look if the child process on the master has self.finished.
-              if not(pid) or os.waitpid(pid,os.WNOHANG) :
+              if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
-                      RR = pickle.load(open("res_master",'r'))
-                      if RR != None : self.treate(*RR)
+                      with open("res_master",'rb') as f : RR = pickle.load(f)
+                      if RR[0] is not None : self.treate(*RR)
                   if not(self.finished()) :
                       pid=os.fork();
                       currently_calculated_by_master = next(self)
                       if pid==0 :  # we are on the child
-                          if currently_calculated_by_master :
+                          if currently_calculated_by_master is not None :
                               res = self.the_function(currently_calculated_by_master)
                           else:
                               res = None
-                          pickle.dump((res,mpi.rank),open('res_master','w'))
+                          with open('res_master','wb') as f : pickle.dump((res,mpi.rank),f)
                           os._exit(0) # Cf python doc. Used for child only.
                   else : pid=0
               if (pid): time.sleep(self.SleepTime) # so that most of the time is for the actual calculation on the master
@@ -102,7 +99,7 @@ class DistributionOnNodes:
         else : # not master
             while not(mpi.recv(0)) :  # master will first send a finished flag
                 omega = mpi.recv(0)
-                if omega ==None :
+                if omega is None :
                     res = None
                 else :
                     res = self.the_function(omega)
-- 
2.43.0


From bb3024e89f79cb430f4df85a858365416b2723cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 42/81] fix: master_gets_host_names receives the host names of
 the other ranks

---
 python/triqs/utility/mpi_mpi4py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..c87c714 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -118,7 +118,7 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-- 
2.43.0


From c3629d31613cfd2398f5a495870986209dba7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 43/81] fix: send and recv without MPI pass the value on

---
 python/triqs/utility/mpi_nompi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..2ce9570 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -60,10 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
+    global _sendval
     _sendval = val
     return
 
 def recv(source = 0):
+    global _sendval
     if _sendval is None:
         raise Exception('send val not set')
     recval = _sendval
-- 
2.43.0


From 1302463833e916fce7f85a1a0a886775c430351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 44/81] fix: mpi without MPI has slice_inf, slice_sup and the
 verbosity level of report

---
 python/triqs/utility/mpi_nompi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index 2ce9570..d73e1fb 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -27,6 +27,8 @@ world = None
 rank = 0
 size = 1
 
+master = 0
+
 All_Nodes_report = False
 
 # variable for send and receive
@@ -37,7 +39,9 @@ myprint_err ("Starting serial run at: %s"%(str(datetime.datetime.now())))
 
 # next are simplified implementations of all mpi functions triqs provides
 
+Verbosity_Level_Report_Max = 1
 def report(*x,**opt):
+        if opt.get('Verbosity_Level', 0) > Verbosity_Level_Report_Max : return
         myprint,myflush = (myprint_err,sys.stderr.flush)  if 'stderr' in opt and opt['stderr'] else (myprint_out,sys.stdout.flush)
         for y in x:
           myprint(y)  # open('report','a').write(str(y) + '\n') #             print y
@@ -72,6 +76,10 @@ def recv(source = 0):
     _sendval = None
     return recval
 
+def slice_inf(imin,imax) : return imin
+
+def slice_sup(imin,imax) : return imax
+
 def slice_array(A) :
     """Given an array A, it returns a VIEW of a slice over the first dim on the node"""
     return A
-- 
2.43.0


From 6fede746069c68bd3c44eaa703b3664b22919b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 45/81] fix: master_gets_host_names checks the number of names
 on the master only

---
 python/triqs/utility/mpi_mpi4py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index c87c714..9be75f6 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -122,9 +122,9 @@ def master_gets_host_names():
     else:
       send(gethostname(),master)
     barrier()
-    assert len(HostNames)==size," internal pb MPI module"
     
     if is_master_node() :
+      assert len(HostNames)==size," internal pb MPI module"
       print("Hostnames : ")
       for u,host in list(HostNames.items()) :
         print("Node %d  on machine %s"%(u,host))
-- 
2.43.0


From 20d91dcfa22b08450ab777e1a9bd8fc6699fbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 46/81] fix: clebsch_gordan: the sign is the parity of the
 whole exponent

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..2933fa2 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -624,7 +624,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From 2c3352dcfe8dbd066b43be613879c76f3e1c93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 47/81] fix: spherical_to_cubic: set the transformation of the
 s shell

---
 python/triqs/operators/util/U_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 2933fa2..d9958d4 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -358,6 +358,7 @@ def spherical_to_cubic(l, convention='triqs'):
         raise ValueError("spherical_to_cubic: [wien2k, wannier90, qe] convention implemented only for l=0,1,2")
     if l == 0:
         cubic_names = ("s")
+        T[0,0] = 1.0
     elif l == 1:
         if convention == 'wannier90' or convention == 'qe':
             cubic_names = ("z","x","y")
-- 
2.43.0


From dee666066ad0444ac3c5bbe935bbc7f5fb756de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 48/81] fix: h_int_kanamori, h_int_density: leave out (i sigma)
 = (j sigma')

---
 python/triqs/operators/util/hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..b1de14a 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -153,6 +153,8 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             else:
                 U_val = Uprime[a1,a2]
 
+            if (s1==s2 and a1==a2): continue # (i \sigma) != (j \sigma')
+
             H_term = 0.5 * U_val * n(*mkind(s1,a1)) * n(*mkind(s2,a2))
             H += H_term
 
@@ -248,6 +250,8 @@ def h_int_density(spin_names,n_orb,U,Uprime,off_diag=None,map_operator_structure
             else:
                 U_val = Uprime[a1,a2]
 
+            if (s1==s2 and a1==a2): continue # (i \sigma) != (j \sigma')
+
             H_term = 0.5 * U_val * n(*mkind(s1,a1)) * n(*mkind(s2,a2))
             H += H_term
 
-- 
2.43.0


From 3ed607255d891920c95ccb825a4e45a32e4130b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 49/81] fix: H_dump: write the indices and coefficients of the
 terms added to H

---
 python/triqs/operators/util/hamiltonians.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index b1de14a..8c33c6c 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,9 +91,9 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
-                H_dump_file.write(str(U_val.real) + '\n')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
+                H_dump_file.write(str(U_val if complex else U_val.real) + '\n')
 
     return H
 
@@ -196,7 +196,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From fac85c4cd6295fc9f59ab890a06b20cef23dd810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 50/81] fix: block_matrix_from_op accepts only terms
 c_dag{bl,i} c{bl,j}

---
 c++/triqs/operators/util/extractors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..878eea0 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -287,7 +287,7 @@ namespace triqs::operators::utils {
       scalar_t const &coef = term.coef;
 
       if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+          and m[1].indices.size() == 2) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 50252713761a570c96d4989f2f7895edc9000d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 51/81] fix: TBSuperLattice: remove_internal_hoppings refers to
 the base lattice

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..3c40d03 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -134,7 +134,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R != self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From 47bc821cd3a787523ce274a7ec510a5d3bc92068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 52/81] fix: TBSuperLattice: change_coordinates_SL_to_L

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 3c40d03..53bdc49 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -142,7 +142,7 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha]
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-- 
2.43.0


From 2103071ddf1abf5d54f3d8e05fa161cdaf984b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 53/81] fix: TBSuperLattice: accept cluster_sites as tuples or
 arrays

---
 python/triqs/lattice/super_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 53bdc49..ece6bac 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -67,8 +67,8 @@ class TBSuperLattice(TBLattice):
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [[int(x) for x in pos] for pos in cluster_sites]
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
-- 
2.43.0


From 711bb49e1aac3384f32db142c690028bf5d8180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 54/81] fix: TBSuperLattice: search the whole cell for cluster
 sites

---
 python/triqs/lattice/super_lattice.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index ece6bac..a3a9dc2 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -73,10 +73,8 @@ class TBSuperLattice(TBLattice):
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
             # the points inside it and store it.
-            if ndim==1:  a=(max(self._M[0,:]), 0, 0 )
-            elif ndim==2:  a=(2*max(self._M[0,:]), 2*max(self._M[1,:]), 0 )
-            elif ndim==3: a= (3*max(self._M[0,:]), 3*max(self._M[1,:]), 3*max(self._M[2,:]))
-            else: raise ValueError("ndim is not between 1 and 3 !!")
+            if not 1 <= ndim <= 3: raise ValueError("ndim is not between 1 and 3 !!")
+            a = [sum(abs(self._M[i,:])) for i in range(ndim)] + (3-ndim)*[0]
             r = lambda i:  list(range(-a[i] , a[i]+1))
             for nx in r(0):
                 for ny in r(1):
-- 
2.43.0


From 4a484709d44f13f816e0b880d811b560a5bf795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:41 +0000
Subject: [PATCH 55/81] fix: TBSuperLattice: copy and pickle

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index a3a9dc2..8b862a3 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -114,10 +114,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return self.__class__, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From ea68e5d9047a2aa70067a043602aebb6822167e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 56/81] fix: parse_hopping_from_wannier90_hr_dat: first orbital
 index runs fastest

---
 python/triqs/lattice/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index e040ef7..f9cba5a 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -112,7 +112,8 @@ def parse_hopping_from_wannier90_hr_dat(filename):
     dat = np.loadtxt(StringIO(dat))
     dat = dat.reshape(nrpts, num_wann, num_wann, 7)
     R = dat[:, 0, 0, 0:3].astype(int)
-    hopp = dat[..., 5] + 1.j * dat[..., 6]
+    # In the file the first orbital index runs fastest
+    hopp = (dat[..., 5] + 1.j * dat[..., 6]).transpose(0, 2, 1)
 
     # Account for degeneracy of the Wigner-Seitz points
     hopp /= deg[:, None, None]
-- 
2.43.0


From 220d44348be0a7cd27339db73c7a4be152389174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 57/81] fix: Gf: in-place multiplication by a square matrix
 valued Gf

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..706f1b4 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -483,8 +483,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], "In place multiplication not supported if " \
+                        "the argument is a nonsquare matrix. Use regular multiplication instead."
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
-- 
2.43.0


From 3abfed2fc4d5dbd70fbdb06d22f3b9e0f0009897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 58/81] fix: Gf: refuse to add or subtract Gfs of different
 target shape

---
 python/triqs/gf/gf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 706f1b4..ab2d0fa 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -428,6 +428,7 @@ class Gf(metaclass=AddMethod):
         if isinstance(arg, Gf):
             assert type(self.mesh) == type(arg.mesh), "Can not add two Gf with meshes of different type"
             assert self.mesh == arg.mesh, "Can not add two Gf with different mesh"
+            assert self.target_shape == arg.target_shape, "Can not add two Gf with different target_shape"
             self._data += arg._data 
         else:
             if self._target_rank != 2 and not isinstance(arg, np.ndarray):
@@ -452,6 +453,7 @@ class Gf(metaclass=AddMethod):
        if isinstance(arg, Gf):
            assert type(self.mesh) == type(arg.mesh), "Can not subtract two Gf with meshes of different type"
            assert self.mesh == arg.mesh, "Can not subtract two Gf with different mesh"
+           assert self.target_shape == arg.target_shape, "Can not subtract two Gf with different target_shape"
            self._data -= arg._data 
        else:
             if self._target_rank != 2 and not isinstance(arg, np.ndarray):
-- 
2.43.0


From 0064befbe75d5d800cf054ba86bacf6513b13c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 59/81] fix: Gf: multiplication by a nonsquare matrix

---
 python/triqs/gf/gf.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index ab2d0fa..7e2f1db 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -495,7 +495,7 @@ class Gf(metaclass=AddMethod):
 
             elif self.target_rank == 0:
                 assert arg.target_rank == 0, "argument of in place multiplication must have rank 0 if self does"
-                self.data[:] = self.data * arg.data
+                self.data[:] *= arg.data
 
             else:
                 raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
@@ -505,7 +505,8 @@ class Gf(metaclass=AddMethod):
         elif isinstance(arg, np.ndarray):
             assert len(arg.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
-            self.data[:] = np.tensordot(self.data, arg, axes=([-1], [-2]))
+            assert arg.shape[0] == arg.shape[1], "In place multiplication not supported for a nonsquare matrix"
+            np.matmul(self.data, arg, out=self.data)
         else:
             assert False, "Invalid operand type for Gf in-place multiplication"
         return self
@@ -545,7 +546,11 @@ class Gf(metaclass=AddMethod):
             else:
                 raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
 
-        elif isinstance(y, (numbers.Number, np.ndarray)):
+        elif isinstance(y, np.ndarray):
+            assert len(y.shape) == 2, "Multiplication only supported for matrices"
+            assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
+            c = Gf(mesh=self._mesh.copy(), data=np.matmul(self.data, y), name=self.name)
+        elif isinstance(y, numbers.Number):
             c = self.copy()
             c *= y
         else:
@@ -553,12 +558,12 @@ class Gf(metaclass=AddMethod):
         return c
 
     def __rmatmul__(self,y):
-        c = self.copy()
         if isinstance(y, np.ndarray):
             assert len(y.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
-            c.data[:] = np.moveaxis(np.tensordot(y, self.data, axes=([-1], [-2])), 0, -2)
+            c = Gf(mesh=self._mesh.copy(), data=np.matmul(y, self.data), name=self.name)
         elif isinstance(y, numbers.Number):
+            c = self.copy()
             c *= y
         else:
             assert False, "Invalid operand type for Gf multiplication"
-- 
2.43.0


From e7bdbd25f2aa62cc5ad36c1a8b106bd0ad713848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 60/81] fix: MeshProduct.to_data_index returns a tuple

---
 python/triqs/gf/mesh_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/mesh_product.py b/python/triqs/gf/mesh_product.py
index e27bbec..62be47e 100644
--- a/python/triqs/gf/mesh_product.py
+++ b/python/triqs/gf/mesh_product.py
@@ -98,7 +98,7 @@ class MeshProduct:
     def to_data_index(self, idx) :
         """
         """
-        return (x.to_data_index(i) for x,i in zip(self._mlist, idx))
+        return tuple(x.to_data_index(i) for x,i in zip(self._mlist, idx))
 
     def __repr__(self):
         """ """
-- 
2.43.0


From 659539c4e1a12b512bacee8d6e80b7ad0ceb63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 61/81] fix: Gf: eval_expr finds the evaluation context

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 7e2f1db..e994102 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -377,7 +377,7 @@ class Gf(metaclass=AddMethod):
     # --------------  Lazy system -------------------------------------
 
     def __lazy_expr_eval_context__(self) : 
-        return LazyCTX(self)
+        return descriptor_base.LazyCTX(self)
 
     def __lshift__(self, A):
         """ A can be two things:
-- 
2.43.0


From 67024bcf2b59e639b68362d6fae6c20d04854ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 62/81] fix: LazyCTX: evaluate descriptors

---
 python/triqs/gf/descriptor_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index f194e9a..9129d58 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -35,7 +35,7 @@ class LazyCTX:
     def __eq__ (self, y):
         return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
     def __call__ (self, x): 
-        if not isinstance(x, descriptor_base.Base): return x
+        if not isinstance(x, Base): return x
         tmp = self.G.copy()
         x(tmp)
         return tmp
-- 
2.43.0


From fe74ef85bcdee8f9a4db2956e60657cd4cf83d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 63/81] fix: LazyExpr: print functions and the right operands
 of - and / correctly

---
 python/triqs/gf/lazy_expressions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..8eadbb4 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -75,12 +75,14 @@ class LazyExpr (__aux):
         return self.childs[0] if self.tag == "T" else None
 
     def __aux_print(self, F):
-        op_priority = {'T': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
+        op_priority = {'T': 100, 'F': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
         if self.tag == "T":  return F(self.childs[0])
         if self.tag == "F":
-            return reduce (lambda s, e: s+ F(e), self.childs[1:], self.childs[0].get_terminal()[0] + "(" ) + ')'
-        par = lambda op, e: "%s"%e if op_priority[e.tag] >= op_priority[op] else "(%s)"%e
-        return "%s %s %s "%(par(self.tag , self.childs[0]), self.tag , par(self.tag , self.childs[1]))
+            return "%s(%s)"%(self.childs[0].get_terminal()[0], ", ".join(F(e) for e in self.childs[1:]))
+        par = lambda e, priority: F(e) if op_priority[e.tag] >= priority else "(%s)"%F(e)
+        # the right operand of - and / needs parentheses also for operators of the same priority
+        p = op_priority[self.tag]
+        return "%s %s %s "%(par(self.childs[0], p), self.tag, par(self.childs[1], p + (self.tag in '-/')))
 
     def __str__(self): return self.__aux_print(str)
     def __repr__(self): return self.__aux_print(repr)
-- 
2.43.0


From 007af47ba0c130330b5b8b23c26953e044eee49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 64/81] fix: lazy_expressions.transform: apply Fterm to all
 terminals

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 8eadbb4..ff8707d 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -122,7 +122,7 @@ def transform (expr, Fnode, Fterm = lambda x: x ):
            it transforms the expression recursively
     """
     if expr.tag == "T": return LazyExpr("T", Fterm(expr.childs[0]))
-    tag, ch = Fnode (expr.tag, [transform (e, Fnode) for e in expr.childs])
+    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
     ch = [LazyExpr(x) for x in ch]
     return LazyExpr (tag, *ch)
 
-- 
2.43.0


From 5ec5ab7bea938b87c3d6f18655ad0eecc8307af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 65/81] fix: SemiCircular: unit matrix in real frequencies,
 printing

---
 python/triqs/gf/descriptors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..724ecfa 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)
 
     def __call__(self,G):
         D = self.half_bandwidth
@@ -96,9 +96,9 @@ semicircle
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-- 
2.43.0


From 3e5e4041ca4fcb42abd05961a81b29ceca37df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 66/81] fix: Gf: multiplication by a lazy expression from the
 right

---
 python/triqs/gf/gf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index e994102..8affa62 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -527,6 +527,7 @@ class Gf(metaclass=AddMethod):
             return meshes.MeshImTime(l.beta, 'Boson' if l.statistic == r.statistic else 'Fermion', len(l)) 
 
     def __matmul__(self,y):
+        if descriptor_base.is_lazy(y): return lazy_expressions.make_lazy(self) * y
         if isinstance(y, Gf):
             # make a copy, but special treatment of the mesh in the Imtime case.
             result_mesh = Gf._combine_mesh_mul(self._mesh, y.mesh)
-- 
2.43.0


From eb6c1e49a55139a94e0879b2f238c48bebee4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 67/81] fix: block descriptors can be used more than once

---
 python/triqs/gf/descriptor_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index 9129d58..a369523 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -72,13 +72,13 @@ class BaseBlock(Base):
     def __init__ (self, G, *args, **kw):
         Base.__init__(self, G = G)
         if self.is_block_descriptor():
-            self.descriptor_iter = (self.__class__(g, *args, **kw) for i,g in G)
+            self.descriptor_iter = [self.__class__(g, *args, **kw) for i,g in G]
 
     def is_block_descriptor(self):
         return self.G.__class__.__name__ == 'BlockGf'
 
     def __iter__ (self):
-        return self.descriptor_iter
+        return iter(self.descriptor_iter)
                 
 #########################################################################
 
-- 
2.43.0


From ea3308d0c2db4def8a887a13c91b2ae1fa3ca068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 68/81] fix: OneFermionInTime works again

---
 python/triqs/gf/descriptors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 724ecfa..c1f7642 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -22,7 +22,7 @@
 r""" """
 
 from .descriptor_base import *
-from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq
+from .meshes import MeshImFreq, MeshDLRImFreq, MeshReFreq, MeshImTime
 import warnings
                 
 #######################################
@@ -33,12 +33,12 @@ class OneFermionInTime(Base):
          
     def __call__(self,G):
         L = self.L
-        if G.mesh.TypeGF not in [GF_Type.Imaginary_Time]: 
-            raise TypeError("This initializer is only correct in frequency")
+        if type(G.mesh) != MeshImTime:
+            raise TypeError("This initializer is only correct in imaginary time")
 
         Id = 1. if len(G.target_shape) == 0 else numpy.identity(G.target_shape[0])
 
-        fact = -1/(1+exp(-L*G.beta))
+        fact = -1/(1+exp(-L*G.mesh.beta))
         Function(lambda t: fact* exp(-L*t) *Id)(G)
         return G
 
-- 
2.43.0


From b011bdd23ca698dc8f6ef2a6dc1ab5e5e1939455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:45 +0000
Subject: [PATCH 69/81] fix: BlockGf.copy_from works for blocks of any target
 rank

---
 python/triqs/gf/block_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..113d710 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -152,8 +152,8 @@ class BlockGf:
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, BlockGf)
         for (i,g),(i2,g2) in zip(self,G2): 
-           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+           if g.target_shape != g2.target_shape:
+               raise RuntimeError("Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2)) 
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 0e89305fff58d55e714d87bbcf9e382854bfa529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 70/81] fix: BlockGf.all_indices yields the element indices

---
 python/triqs/gf/block_gf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 113d710..797f334 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -193,10 +193,8 @@ class BlockGf:
     def all_indices(self):
        """  An Iterator on BlockGf indices and indices of the blocs of the form: block_index,n1,n2, where n1,n2 are indices of the block"""
        for sig,g in self:
-          val = g.indices
-          for x in val:
-              for y in val:
-                  yield  (sig,x,y)
+          for x in g.target_indices:
+              yield (sig,) + tuple(x)
 
     @property
     def n_blocks(self):
-- 
2.43.0


From b227de88490024a1e17d181cb05c03c3f796c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 71/81] fix: BlockGf does not keep the lists of its caller

---
 python/triqs/gf/block_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 797f334..613f0b7 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -120,7 +120,7 @@ class BlockGf:
             raise RuntimeError("BlockGf: All block must have the same type %s"%GFlist)
 
         # init
-        self.__indices,self.__GFlist = BlockNameList,GFlist
+        self.__indices,self.__GFlist = list(BlockNameList),list(GFlist)
         try:
             self.__me_as_dict = dict(self)
         except TypeError:
-- 
2.43.0


From c46e1872209f270e4f29fa7c411ea43bda05b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 72/81] fix: BlockGf: arithmetic with lazy expressions

---
 python/triqs/gf/block_gf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 613f0b7..ec121ab 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -306,9 +306,9 @@ class BlockGf:
             for (n,g) in self: self[n] += arg[n]
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist), "list of incorrect length"
-            for l,g in zip(arg,self.__GFlist): g +=l
+            for l,(i,g) in zip(arg,self): self[i] += l
         else:
-            for i,g in self: g += arg
+            for i,g in self: self[i] += arg
         return self
 
     def __add__(self,y):
@@ -323,9 +323,9 @@ class BlockGf:
            for (n,g) in self: self[n] -= arg[n]
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l,g in zip(arg,self.__GFlist): g -=l
+            for l,(i,g) in zip(arg,self): self[i] -= l
         else:
-            for i,g in self: g -= arg
+            for i,g in self: self[i] -= arg
         return self
 
     def __sub__(self,y):
@@ -342,7 +342,7 @@ class BlockGf:
         if isinstance(arg, BlockGf):
             for (n,g) in self: self[n] *= arg[n]
         else:
-            for i,g in self: g *= arg
+            for i,g in self: self[i] *= arg
         return self
 
     def __mul__(self,y):
-- 
2.43.0


From 582f35766d7cb253430cfa7d65a962ea3703f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 73/81] fix: BlockGf: multiplication by a matrix from the left

---
 python/triqs/gf/block_gf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ec121ab..94665ae 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -358,7 +358,8 @@ class BlockGf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        return BlockGf(name_list=self.__indices, block_list=[x * g for g in self.__GFlist])
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From 82009c0213ebab37f95baacc38632e1499c56fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 74/81] fix: Block2Gf: assign initializers and scalars

---
 python/triqs/gf/block2_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..59d3634 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -236,7 +236,7 @@ class Block2Gf:
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From 09e4d64cb1d595680954d92fab04101c1c7a7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 75/81] fix: Block2Gf can be pickled

---
 python/triqs/gf/block2_gf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 59d3634..9b58019 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -24,6 +24,9 @@ from itertools import chain, product
 import numpy as np
 
 
+from .block_gf import call_factory_from_dict
+
+
 class Block2Gf:
     """
     Generic Green's Function by two-index Block.
@@ -182,7 +185,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From 9cf5ee35c69fb8faaba4c7c4c9897090a5daa4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 76/81] fix: Block2Gf: selected blocks keep the order of the
 original

---
 python/triqs/gf/block2_gf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 9b58019..431384e 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -107,13 +107,17 @@ class Block2Gf:
         """Returns a VIEW of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
+        names1 = [bn for bn in self.__indices1 if bn in selected_blocks1]
+        names2 = [bn for bn in self.__indices2 if bn in selected_blocks2]
+        return self.__class__ (names1, names2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
 
     def copy_selected_blocks(self, selected_blocks1, selected_blocks2):
         """Returns a COPY of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
+        names1 = [bn for bn in self.__indices1 if bn in selected_blocks1]
+        names2 = [bn for bn in self.__indices2 if bn in selected_blocks2]
+        return self.__class__ (names1, names2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
 
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
-- 
2.43.0


From 8eee2dcce310c29e06bf451556055b526c409bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 77/81] fix: Block2Gf: multiplication by a matrix from the left

---
 python/triqs/gf/block2_gf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 431384e..9a2e661 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -306,7 +306,8 @@ class Block2Gf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        return Block2Gf(name_list1=self.__indices1, name_list2=self.__indices2, block_list=[[x * g for g in g_row] for g_row in self.__GFlist])
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From 94245a7e5b2dfa3d32b70ea914ea2e937e538afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:13 +0000
Subject: [PATCH 78/81] fix: make_delta accepts the energies as a list

---
 python/triqs/gf/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 2bef238..e708157 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -310,6 +310,7 @@ def make_delta(V, eps, mesh, block_names=None):
         delta_list = [make_delta(v, e, mesh) for v, e in zip(V, eps)]
         return BlockGf(name_list=block_names, block_list=delta_list)
 
+    eps = np.asarray(eps)
     assert V.shape[1] == len(eps), 'number of bath sides in V and eps does not match'
 
     delta_res = Gf(mesh=mesh, target_shape=[V.shape[0], V.shape[0]])
-- 
2.43.0


From c30cf7bc26f2dc8a8ab6616eecc2f949aa426157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:49 +0000
Subject: [PATCH 79/81] fix: Gf: invert views whose data cannot be reshaped
 without a copy

---
 python/triqs/gf/gf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 8affa62..df13639 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -604,11 +604,7 @@ class Gf(metaclass=AddMethod):
         if self.target_rank == 0: # Scalar target space
             self.data[:] = 1. / self.data
         elif self.target_rank == 2: # Matrix target space
-            # TODO: Replace by np.linag.inv, since v1.8
-            # Cf https://docs.scipy.org/doc/numpy/reference/generated/numpy.reshape.html
-            d = self.data.view()
-            d.shape = (np.prod(d.shape[:-2]),) + d.shape[-2:] # reshaped view, guarantee no copy
-            wrapped_aux._gf_invert_data_in_place(d)
+            self.data[:] = np.linalg.inv(self.data)
         else:
             raise TypeError(
                 "Inversion only makes sense for matrix or scalar_valued Greens functions")
-- 
2.43.0


From 12efcc898b93855d060e99500bb1c81e1419b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:36 +0000
Subject: [PATCH 80/81] fix: assigning an ill-formed expression to a gf left it
 with the mesh of the expression and its old data

---
 c++/triqs/gfs/gf/gf.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/gf/gf.hpp b/c++/triqs/gfs/gf/gf.hpp
index 9cdbfe0..43ef147 100644
--- a/c++/triqs/gfs/gf/gf.hpp
+++ b/c++/triqs/gfs/gf/gf.hpp
@@ -313,8 +313,9 @@ namespace triqs::gfs {
     gf &operator=(RHS &&rhs)
       requires(GreenFunction<RHS>::value and not std::is_same_v<std::decay_t<RHS>, gf>)
     {
-      _mesh = rhs.mesh();
-      _data.resize(rhs.data_shape());
+      auto const shape = rhs.data_shape(); // throws for an ill-formed expression: before anything is changed
+      _mesh            = rhs.mesh();
+      _data.resize(shape);
       for (auto w : _mesh) (*this)[w] = rhs[w];
       return *this;
     }
-- 
2.43.0


From 0f5471555e83911a842e76645927ab88e8afa8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:31 +0000
Subject: [PATCH 81/81] fix: expressions of block Green's functions with
 different numbers of blocks read past the end of the shorter one

---
 c++/triqs/gfs/block/expr.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 2a2acf9..0a0562f 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -59,6 +59,13 @@ namespace triqs {
         using type = void;
       };
 
+      // the common number of blocks of two operands (-1 for a scalar)
+      inline int combine_size(int l, int r) {
+        if (l == -1) return r;
+        if (r != -1 and l != r) TRIQS_RUNTIME_ERROR << "Block Green Function Expression: the operands have different numbers of blocks: " << l << " vs " << r;
+        return l;
+      }
+
     } // namespace details_bgfs_expr
 
     template <typename Tag, typename L, typename R> struct bgf_expr : TRIQS_CONCEPT_TAG_NAME(BlockGreenFunction) {
@@ -78,9 +85,9 @@ namespace triqs {
       R r;
       template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {}
 
-      auto size() const { return std::max(l.size(), r.size()); }
-      auto size1() const { return std::max(l.size1(), r.size1()); }
-      auto size2() const { return std::max(l.size2(), r.size2()); }
+      auto size() const { return details_bgfs_expr::combine_size(l.size(), r.size()); }
+      auto size1() const { return details_bgfs_expr::combine_size(l.size1(), r.size1()); }
+      auto size2() const { return details_bgfs_expr::combine_size(l.size2(), r.size2()); }
 
       auto block_names() const {
         if constexpr (std::is_void_v<typename L_t::mesh_t>)
-- 
2.43.0

