From 6a5a6872e0ac2e1b88d38153b0e200a8cd9de547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:48 +0000
Subject: [PATCH 01/23] fix: honour the memory layout of numpy arguments

Arguments were taken as py::array_t<T>, which accepts any strides, and then read
as if they were contiguous and row-major, so transposed, Fortran-ordered or
strided arrays were silently misread (or read out of bounds). Request C-contiguous
arrays (copied only when necessary).
---
 src/module.cpp | 52 +++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..d25a24b 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -20,36 +20,40 @@ using namespace py::literals;
 
 namespace hl {
 
+// C-contiguous (row-major) view of the argument: strided, transposed, Fortran-ordered and non-matching dtypes get copied
 template<typename T>
-T* begin(py::array_t<T>& a)
+using array_t = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
+template<typename T>
+T* begin(array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (T*)a.request().ptr;
 }
 
 template<typename T>
-T* end(py::array_t<T>& a)
+T* end(array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-const T* cbegin(const py::array_t<T>& a)
+const T* cbegin(const array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr;
 }
 
 template<typename T>
-const T* cend(const py::array_t<T>& a)
+const T* cend(const array_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-std::vector<T> toVector(const py::array_t<T>& a)
+std::vector<T> toVector(const array_t<T>& a)
 {
   if (a.ndim() != 1)
   {
@@ -59,7 +63,7 @@ std::vector<T> toVector(const py::array_t<T>& a)
 }
 
 template<typename T>
-NDArray<T> toNDArray(const py::array_t<T>& np)
+NDArray<T> toNDArray(const array_t<T>& np)
 {
   const size_t dim = np.ndim();
   std::vector<int64_t> sizes(dim);
@@ -71,21 +75,21 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 }
 
 template<typename T>
-NDArray<T> asNDArray(const py::array_t<T>& np)
+NDArray<T> asNDArray(const array_t<T>& np)
 {
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
 }
 
 template<typename T>
-py::array_t<T> fromNDArray(const NDArray<T>& a)
+array_t<T> fromNDArray(const NDArray<T>& a)
 {
   // TODO ensure this is safe. may need to explicitly copy data
-  return py::array_t<T>(a.sizes(), a.rawData());
+  return array_t<T>(a.sizes(), a.rawData());
 
 }
 
-py::list flatten(const py::array_t<int64_t>& a)
+py::list flatten(const array_t<int64_t>& a)
 {
   const NDArray<int64_t> array = asNDArray<int64_t>(a);
 
@@ -107,7 +111,7 @@ py::list flatten(const py::array_t<int64_t>& a)
   return outer;
 }
 
-py::tuple integerise1d(py::array_t<double> frac_a, int pop)
+py::tuple integerise1d(array_t<double> frac_a, int pop)
 {
   if (pop < 0)
   {
@@ -126,7 +130,7 @@ py::tuple integerise1d(py::array_t<double> frac_a, int pop)
   py::dict stats;
   stats["rmse"] = var;
 
-  return py::make_tuple(py::array_t<int>(freq.size(), freq.data()), stats);
+  return py::make_tuple(array_t<int>(freq.size(), freq.data()), stats);
 }
 
 
@@ -135,9 +139,9 @@ class SobolGenerator
 public:
   SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
-  py::array_t<double> next()
+  array_t<double> next()
   {
-    py::array_t<double> sequence(m_sobol.dim());
+    array_t<double> sequence(m_sobol.dim());
     try
     {
       const std::vector<uint32_t>& buf = m_sobol.buf();
@@ -161,7 +165,7 @@ private:
 
 
 
-py::tuple integerise(const py::array_t<double>& npseed)
+py::tuple integerise(const array_t<double>& npseed)
 {
   const NDArray<double> seed = asNDArray<double>(npseed); // shallow copy
   Integeriser integeriser(seed);
@@ -173,7 +177,7 @@ py::tuple integerise(const py::array_t<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const array_t<double>& seed, const py::list& ilist, const py::list& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -186,8 +190,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
+    const array_t<int64_t> ia = ilist[i].cast<array_t<int64_t>>();
+    const array_t<double> ma = mlist[i].cast<array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.push_back(asNDArray<double>(ma));
   }
@@ -218,8 +222,8 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const array_t<int64_t> ia = ilist[i].cast<array_t<int64_t>>();
+    const array_t<int64_t> ma = mlist[i].cast<array_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -239,7 +243,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -252,8 +256,8 @@ py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const array_t<int64_t> ia = ilist[i].cast<array_t<int64_t>>();
+    const array_t<int64_t> ma = mlist[i].cast<array_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -324,7 +328,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const py::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From 189fc3585b7415f15897ae21761e1427a81769a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:09 +0000
Subject: [PATCH 02/23] fix: ipf must own its marginals

A marginal that needed conversion (integer or strided array, or a list) was held
by pointer into a temporary numpy array that had already been released.
---
 src/module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index d25a24b..0f2f407 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -193,7 +193,8 @@ py::tuple ipf(const array_t<double>& seed, const py::list& ilist, const py::list
     const array_t<int64_t> ia = ilist[i].cast<array_t<int64_t>>();
     const array_t<double> ma = mlist[i].cast<array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    // take a copy: ma may be a temporary (if a conversion was required)
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From 1da415c7e94b068045407448c684643a9b7a134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:16 +0000
Subject: [PATCH 03/23] fix: Sobol skip looped forever for more than 2^31
 points

---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..0efb032 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -230,7 +230,7 @@ void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
 {
   if (s)
   {
-	  uint32_t k = 1;
+	  uint64_t k = 1; // 64 bit to avoid overflow when n > 2^31
 	  while (k*2 < n) k *= 2;
 	  while (k-- > 0) sobol_gen(s, x);
   }
-- 
2.43.0


From 45e065af11e11947281089cfd37a3628520ed388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:27 +0000
Subject: [PATCH 04/23] fix: qisi ignored its skips argument

solve() sampled from a newly created local Sobol sequence rather than from the one
the skips had been applied to. Results with the default (no skips) are unchanged.
---
 src/QISI.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index 2cd9c93..89688cd 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -70,7 +70,9 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
-  m_sobolSeq.skip(skips);
+  // no points are skipped by default
+  if (skips > 0)
+    m_sobolSeq.skip(skips);
 }
 
 // control state of Sobol via arg?
@@ -101,11 +103,10 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
   const std::vector<MappedIndex>& mappedIndices = makeMarginalMappings(main_index);
   m_array.assign(0ll);
 
-  Sobol sobol_seq(m_dim);
   for (int64_t i = 0; i < m_population; ++i)
   {
     // map sobol to a point in state space, store in index
-    const std::vector<uint32_t>& seq = sobol_seq.buf();
+    const std::vector<uint32_t>& seq = m_sobolSeq.buf();
     // ...
     getIndex(m_ipfSolution, seq, main_index);
 
-- 
2.43.0


From 6dfd7ead006724143a65e7142837b5bf9e12f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:44 +0000
Subject: [PATCH 05/23] fix: reject skips that are negative or do not fit in 32
 bits

They were converted to uint32_t, so -1 meant (nearly) 2^32 points.
---
 src/QIS.cpp      | 2 ++
 src/QISI.cpp     | 2 ++
 src/rcpp_api.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..330ab9f 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -159,6 +159,8 @@ void sample(std::vector<int64_t>& dims, const std::vector<uint32_t>& seq, const
 QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
 : Microsynthesis(indices, marginals), m_sobolSeq(m_dim), m_conv(false)
 {
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::range_error("skips %% is not in valid range [0,4294967295]"s % skips);
   m_sobolSeq.skip(skips);
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
diff --git a/src/QISI.cpp b/src/QISI.cpp
index 89688cd..c98ddf3 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -70,6 +70,8 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::range_error("skips %% is not in valid range [0,4294967295]"s % skips);
   // no points are skipped by default
   if (skips > 0)
     m_sobolSeq.skip(skips);
diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..f4a1d12 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -454,6 +454,9 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 {
   static const double scale = 0.5 / (1ull<<31);
 
+  if (skip < 0)
+    throw std::range_error("skip cannot be negative");
+
   NumericMatrix m(n, dim);
 
   Sobol s(dim, skip);
-- 
2.43.0


From 3ec1496aeef2328d021804db86bc982e7568d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:13 +0000
Subject: [PATCH 06/23] fix: IPF reported convergence for NaN results

std::max drops NaNs, so when the fit degenerated to NaN the maximum error was
-DBL_MAX and the solution was reported as converged. Also reject negative and
non-finite seeds and marginals, which lead there.
---
 src/IPF.h            | 11 ++++++++++-
 src/Microsynthesis.h |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..7ea9fcd 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -45,6 +45,13 @@ public:
         throw std::runtime_error("seed dimensions %% are inconsistent with that implied by marginals (%%)"s % seed.sizes() % this->m_array.sizes());
     }
 
+    // the seed must be a valid (unnormalised) distribution
+    for (size_t i = 0; i < seed.storageSize(); ++i)
+    {
+      if (!(seed.rawData()[i] >= 0.0) || !std::isfinite(seed.rawData()[i]))
+        throw std::runtime_error("negative or non-finite value in seed: %%"s % seed.rawData()[i]);
+    }
+
     Index index_main(this->m_array.sizes());
 
     std::vector<MappedIndex> mappings;
@@ -114,7 +121,9 @@ private:
       {
         double e = std::fabs(diffs[k][index]);
         m_errors[k][index] = e;
-        m_maxError = std::max(m_maxError, e);
+        // NaNs must not be lost (they mean the fit has failed)
+        if (std::isnan(e) || e > m_maxError)
+          m_maxError = e;
       }
     }
 
diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..400eb3e 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -61,6 +61,9 @@ public:
     {
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
+      // NB sums of infinities or NaNs are never finite
+      if (!std::isfinite(static_cast<double>(sum(m_marginals[k]))))
+        throw std::runtime_error("non-finite value in marginal %%"s % k);
     }
 
     m_dim = dim_sizes.size();
-- 
2.43.0


From 56e8e1c85e32898f6827e6e298282f0692659fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:05 +0000
Subject: [PATCH 07/23] fix: reject marginals that refer to the same dimension
 twice

ipf and qisi never terminated, and qis used only the diagonal.
---
 src/Microsynthesis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 400eb3e..9431e16 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -43,6 +43,8 @@ public:
       for (size_t j = 0; j < m_indices[k].size(); ++j)
       {
         int64_t dim = m_indices[k][j];
+        if (std::count(m_indices[k].begin(), m_indices[k].end(), dim) > 1)
+          throw std::runtime_error("dimension %% is repeated at index %%"s % dim % k);
         int64_t size = m_marginals[k].size(j);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
-- 
2.43.0


From 14c2ffc7c640d29a36ba809929d6b36604e14fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:38 +0000
Subject: [PATCH 08/23] fix: ipf and qisi never terminated if a marginal
 covered every dimension

---
 src/Index.cpp      | 3 +++
 src/NDArrayUtils.h | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..abbf17b 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -105,6 +105,9 @@ MappedIndex::MappedIndex(const Index& idx, const std::vector<int64_t>& mappedDim
 
 const MappedIndex& MappedIndex::operator++()
 {
+  // a mapping of zero dimensions has a single (empty) element
+  if (m_dim == 0)
+    m_atEnd = true;
   for (int64_t i = m_dim - 1; i != -1ll; --i)
   {
     ++*m_mappedIndex[i];
diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..9ef8aeb 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -136,13 +136,13 @@ std::vector<T> reduce(const NDArray<T>& input, size_t orient)
 }
 
 
-// Reduce n-D array to m-D sums (where m<n)
+// Reduce n-D array to m-D sums (where m<=n)
 template<typename T>
 NDArray<T> reduce(const NDArray<T>& input, const std::vector<int64_t>& preservedDims)
 {
   const size_t reducedDim = preservedDims.size();
   // check valid orientation
-  assert(reducedDim < input.dim());
+  assert(reducedDim <= input.dim());
 
   std::vector<int64_t> preservedSizes(reducedDim);
   for (size_t d = 0; d < reducedDim; ++d)
-- 
2.43.0


From 2ebfc137028a99b7983ff7bd73eaaa78477ca6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:46 +0000
Subject: [PATCH 09/23] fix: integerise hung or crashed on empty, zero-sum,
 negative or non-finite input

---
 src/Integerise.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..b0179f0 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -23,11 +23,16 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
 std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, int pop, double& rmse)
 {
   const size_t n = p.size();
+  if (n == 0)
+    throw std::runtime_error("cannot integerise an empty distribution");
   std::vector<int> f(n);
   std::vector<double> r(n);
 
   for(size_t i = 0; i < n; ++i)
   {
+    // NB also rejects NaN
+    if (!(p[i] >= 0.0) || !std::isfinite(p[i]))
+      throw std::runtime_error("negative or non-finite value in distribution: %%"s % p[i]);
     f[i] = p[i] * pop; // rounded down
     r[i] = p[i] * pop - f[i];
   }
-- 
2.43.0


From ece53840a1fc72d12aab4259558c848677e5e11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:56 +0000
Subject: [PATCH 10/23] fix: 1-d integerise truncated the total instead of
 rounding it

e.g. ten values of 0.1 sum to just under 1, giving a population of 0 and then a
division by zero.
---
 src/Integerise.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index b0179f0..4f2280b 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <numeric>
 #include <cmath>
+#include <limits>
 //#include <iostream>
 
 namespace {
@@ -60,16 +61,19 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   // construct 1-d integer marginals in each dim
   size_t dim = m_seed.dim();
   // check total population is integral (or close)
-  checked_round(sum(m_seed));
+  const int64_t total = checked_round(sum(m_seed));
 
   // 1-d special case: use prob2IntFreq
   if (dim == 1)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
-    // convert to probabilities
-    for (auto& x: p) x /= pop;
+    if (total > std::numeric_limits<int>::max())
+      throw std::runtime_error("total value %% is too large"s % total);
+    int pop = (int)total;
+    // convert to probabilities (nothing to do if the total is zero)
+    if (pop > 0)
+      for (auto& x: p) x /= pop;
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
-- 
2.43.0


From c31d8ecf8ac04c819499a71e5038f89483649cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:44 +0000
Subject: [PATCH 11/23] fix: chi-squared statistic was NaN if any marginal
 contained a zero

States that cannot be (and are not) occupied contributed 0/0. Likewise the
expectation was NaN for an empty population.
---
 src/QIS.cpp     | 4 +++-
 src/StatFuncs.h | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 330ab9f..225e6d4 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -167,7 +167,9 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   computeStateValues();
   NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
   // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
+  const double total = sum(m_stateValues);
+  // (avoid 0/0 if there are no possible states)
+  double scale = total > 0.0 ? double(m_population) / total : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
 #ifdef VERBOSE
diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..b7e5a6b 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // impossible states that are unoccupied make no contribution (rather than 0/0)
+    if (reference[index] == 0 && sample[index] == 0)
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From ae5094616724dbd007bcdc4cbf8b341c84c84c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:18 +0000
Subject: [PATCH 12/23] fix: exhausted SobolSequence must raise StopIteration

Sobol::buf throws std::out_of_range, which is not a runtime_error.
---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 0f2f407..3ba7ad2 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -148,7 +148,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From 519839ee8cec06d3cbd372385cbca8511d691fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:23 +0000
Subject: [PATCH 13/23] fix: SobolSequence dimension must be validated before
 it is used

It was truncated to 32 bits (so 2^32+1 meant 1), and a buffer of that size was
allocated before the range check.
---
 src/Sobol.cpp  | 3 ++-
 src/module.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..71b38b9 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -6,13 +6,14 @@
 #include <cstdint>
 
 
-Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
 {
   if (dim < 1 || dim > 1111)
   {
     throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
   }
 
+  m_buf.resize(dim);
   m_s = nlopt_sobol_create(dim);
   if (nSkip > 0)
     skip(nSkip);
diff --git a/src/module.cpp b/src/module.cpp
index 3ba7ad2..f6cd2d2 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -137,7 +137,7 @@ py::tuple integerise1d(array_t<double> frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   array_t<double> next()
   {
-- 
2.43.0


From 143bb5dd491009d9fb00376a7ebf45dbb5953e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 14/23] fix: flatten wrote out of bounds if any count was
 negative

---
 src/NDArrayUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 9ef8aeb..622b77b 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -204,6 +204,9 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
 template<typename T>
 std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int offset = 0)
 {
+  if (min(t) < 0)
+    throw std::runtime_error("cannot list a population with a negative count");
+
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
 
-- 
2.43.0


From 602b7e613f8dfb5b8c885fd391104c1f07b72b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:36 +0000
Subject: [PATCH 15/23] fix: reject arrays with no dimensions or no elements

They caused division by zero, or reads out of bounds.
---
 src/NDArray.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..958b2dc 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -39,7 +39,7 @@ public:
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
     : m_dim(sizes.size()), m_sizes(sizes)
   {
-    assert(m_sizes.size());
+    validate(sizes);
     m_storageSize = sizes[0];
     assert(m_storageSize < MaxSize);
     for (size_t i = 1; i < m_dim; ++i)
@@ -113,6 +113,7 @@ public:
   {
     if (m_owned)
     {
+      validate(sizes);
       m_dim = sizes.size();
       size_t oldStorageSize = m_storageSize;
 
@@ -202,6 +203,18 @@ public:
 
 private:
 
+  // arrays must have at least one dimension and at least one element
+  static void validate(const std::vector<int64_t>& sizes)
+  {
+    if (sizes.empty())
+      throw std::runtime_error("array must have at least one dimension");
+    for (size_t i = 0; i < sizes.size(); ++i)
+    {
+      if (sizes[i] < 1)
+        throw std::runtime_error("array size must be at least one in every dimension");
+    }
+  }
+
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-- 
2.43.0


From 97f6ae9860903c9721e8d182dcb96113444c9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:48 +0000
Subject: [PATCH 16/23] fix: R flatten must check the category names

It crashed if there were too few of them, and lost columns if they were not unique.
---
 src/rcpp_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index f4a1d12..df53728 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -488,6 +488,11 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   const NDArray<int64_t>& a = Rhelpers::convertArray<int64_t, IntegerVector>(stateOccupancies);
   int64_t pop = sum(a);
 
+  if (static_cast<size_t>(categoryNames.size()) < a.dim())
+    throw std::runtime_error("a category name is required for every dimension");
+  if (Rcpp::unique(categoryNames).size() != categoryNames.size())
+    throw std::runtime_error("category names must be unique");
+
   // for R indices start at 1
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
 
-- 
2.43.0


From d92447aa2365d257c99efaeaceeb1df28ca64d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:02 +0000
Subject: [PATCH 17/23] fix: R front end read out of bounds if seed, indices
 and marginals differ in dimension

---
 src/rcpp_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index df53728..f6c7bb0 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -77,6 +77,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
     {
       colMajorSizes.push_back(mv.size());
     }
+    if (static_cast<size_t>(iv.size()) != colMajorSizes.size())
+      throw std::runtime_error("index/marginal dimension mismatch " + std::to_string(iv.size()) + " vs " + std::to_string(colMajorSizes.size()));
     for (size_t j = 0; j < colMajorSizes.size(); ++j)
     {
       lookup[iv[j]] = colMajorSizes[j];
@@ -94,6 +96,8 @@ void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
   const Dimension& seedDim = seed.attr("dim");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
+    if (i >= impliedDim.size())
+      throw std::runtime_error("seed has more dimensions than implied by the marginals");
     if (seedDim[i] != impliedDim[i])
       throw std::runtime_error("mismatch between seed dimension " + std::to_string(i+1) + " and marginal");
   }
-- 
2.43.0


From 487cd32caa1f22d5c47c4ba1b08c054dd9f1ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:25 +0000
Subject: [PATCH 18/23] fix: 1-d integerise accepted distributions with only
 negative values

---
 src/module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/module.cpp b/src/module.cpp
index f6cd2d2..6c9be20 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -121,6 +121,11 @@ py::tuple integerise1d(array_t<double> frac_a, int pop)
   // convert py::array_t to vector and normalise it to get probabilities
   std::vector<double> prob = toVector(frac_a);
   double sum = std::accumulate(prob.begin(), prob.end(), 0.0);
+  // normalising would otherwise hide that every value is negative
+  if (sum < 0.0)
+  {
+    throw py::value_error("negative value in distribution");
+  }
   for (double& p: prob) {
     p /= sum;
   }
-- 
2.43.0


From 44d4f26572c874b0c0c03f9d8c1fa4e491c7f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:45 +0000
Subject: [PATCH 19/23] Verification hook: start Sobol sequences at a given
 position (guarded by HUMANLEAGUE_VERIF)

---
 src/SobolImpl.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 0efb032..51afdd2 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -190,6 +190,24 @@ static void sobol_destroy(SobolData *sd)
   free(sd->b);
 }
 
+#ifdef HUMANLEAGUE_VERIF
+/* verification hook: start new sequences after n points (read from the environment) without generating them,
+   the state being the combination of direction numbers given by the Gray code of n */
+static void sobol_seek(SobolData *sd, uint32_t n)
+{
+  uint32_t i, j, gray = n ^ (n >> 1);
+  for (i = 0; n > 0 && i < sd->sdim; ++i)
+  {
+    sd->b[i] = 31;
+    sd->x[i] = 0;
+    for (j = 0; j < 32; ++j)
+      if ((gray >> j) & 1)
+        sd->x[i] ^= sd->m[j][i] << (31 - j);
+  }
+  sd->n = n;
+}
+#endif
+
 /************************************************************************/
 /* NLopt API to Sobol sequence creation, which hides SobolData structure
    behind an opaque pointer */
@@ -204,6 +222,10 @@ SobolData* nlopt_sobol_create(uint32_t sdim)
     free(s);
     return NULL;
   }
+#ifdef HUMANLEAGUE_VERIF
+  if (getenv("HUMANLEAGUE_SOBOL_SEEK"))
+    sobol_seek(s, (uint32_t)strtoul(getenv("HUMANLEAGUE_SOBOL_SEEK"), NULL, 10));
+#endif
   return s;
 }
 
-- 
2.43.0


From eaed65af6aa9865ff660c6bd4b9afcec0d64be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:09 +0000
Subject: [PATCH 20/23] fix: flatten wrote out of bounds if the sum of the
 counts overflows

---
 src/NDArrayUtils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 622b77b..a228d79 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -217,6 +217,9 @@ std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int
   {
     for (T i = 0; i < t[index]; ++i)
     {
+      // e.g. if the sum of the counts overflowed
+      if (pindex >= pop)
+        throw std::runtime_error("counts exceed the population to be listed");
       const std::vector<int64_t>& ref = index;
       for (size_t j = 0; j < t.dim(); ++j)
       {
-- 
2.43.0


From c195b3f73c2f52458b0fe3a5ff6f71a8880df719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 21/23] fix: array size overflow with many dimensions led to
 out of bounds access

---
 src/NDArray.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/NDArray.h b/src/NDArray.h
index 958b2dc..34cd7de 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 
 #include <vector>
@@ -213,6 +214,14 @@ private:
       if (sizes[i] < 1)
         throw std::runtime_error("array size must be at least one in every dimension");
     }
+    // the total (in bytes) must not overflow
+    int64_t limit = std::numeric_limits<int64_t>::max() / static_cast<int64_t>(sizeof(T));
+    for (size_t i = 0; i < sizes.size(); ++i)
+    {
+      limit /= sizes[i];
+      if (limit < 1)
+        throw std::runtime_error("array is too large");
+    }
   }
 
   void computeOffsets()
-- 
2.43.0


From 65cb81de16ef3df5131fd8e54eb741fce17db20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 22/23] fix: marginals with overflowing sums were accepted

---
 src/Microsynthesis.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 9431e16..45f1caf 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -63,9 +63,10 @@ public:
     {
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
-      // NB sums of infinities or NaNs are never finite
-      if (!std::isfinite(static_cast<double>(sum(m_marginals[k]))))
-        throw std::runtime_error("non-finite value in marginal %%"s % k);
+      // the population must be representable. NB false for sums of infinities or NaNs
+      const double total = std::accumulate(m_marginals[k].rawData(), m_marginals[k].rawData() + m_marginals[k].storageSize(), 0.0);
+      if (!(total < 9.2e18))
+        throw std::runtime_error("non-finite value or sum too large in marginal %%"s % k);
     }
 
     m_dim = dim_sizes.size();
-- 
2.43.0


From b115054783bd9e72cff1d2ceb5b660950f077f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 23/23] fix: integerise gave wrong results if the total is too
 large to represent

---
 src/Integerise.cpp | 2 ++
 src/module.cpp     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index 4f2280b..028c268 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -14,6 +14,8 @@ namespace {
 
 int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantissa precision
 {
+  if (!(fabs(x) < 9.2e18))
+    throw std::runtime_error("Marginal or total value %% is not finite or too large"s % x);
   if (fabs(x - round(x)) > tol)
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
   return (int64_t)round(x);
diff --git a/src/module.cpp b/src/module.cpp
index 6c9be20..49b223d 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -126,6 +126,11 @@ py::tuple integerise1d(array_t<double> frac_a, int pop)
   {
     throw py::value_error("negative value in distribution");
   }
+  // or that they cannot be represented
+  if (!std::isfinite(sum))
+  {
+    throw py::value_error("sum of distribution is not finite");
+  }
   for (double& p: prob) {
     p /= sum;
   }
-- 
2.43.0

