From 7eda5fce48dcfab407da6a8c10ba216a0355724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 01/59] fix: StreamJournal writes past its buffer for long
 messages

---
 src/Common/IpJournalist.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Common/IpJournalist.cpp b/src/Common/IpJournalist.cpp
index eab931a..bdd512f 100644
--- a/src/Common/IpJournalist.cpp
+++ b/src/Common/IpJournalist.cpp
@@ -509,8 +509,25 @@ void StreamJournal::PrintfImpl(
    DBG_START_METH("StreamJournal::PrintfImpl", 0);
    if( os_ )
    {
-      vsprintf(buffer_, pformat, ap);
-      *os_ << buffer_;
+#ifdef IPOPT_HAS_VA_COPY
+      // messages that do not fit into the buffer are printed via a larger temporary one
+      va_list apcopy;
+      va_copy(apcopy, ap);
+      int len = vsnprintf(buffer_, sizeof(buffer_), pformat, apcopy);
+      va_end(apcopy);
+      if( len >= (int) sizeof(buffer_) )
+      {
+         std::vector<char> buffer(len + 1);
+         vsnprintf(&buffer[0], buffer.size(), pformat, ap);
+         *os_ << &buffer[0];
+      }
+      else
+#else
+      vsnprintf(buffer_, sizeof(buffer_), pformat, ap);
+#endif
+      {
+         *os_ << buffer_;
+      }
       DBG_EXEC(0, *os_ << std::flush);
    }
 }
-- 
2.43.0


From daf4f56139139b4c72ca9431d650ecc41b4d7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 02/59] fix: numeric option values are rounded to 6 digits when
 set

---
 src/Common/IpOptionsList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index 7aafa04..dffc462 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -117,6 +117,11 @@ bool OptionsList::SetNumericValue(
 {
    char buffer[256];
    Snprintf(buffer, 255, "%g", value);
+   if( strtod(buffer, NULL) != value )
+   {
+      // use as many digits as necessary to get the same value back
+      Snprintf(buffer, 255, "%.17g", value);
+   }
 
    if( IsValid(reg_options_) )
    {
-- 
2.43.0


From 656f31df3facf70888f179abdcf323685f41b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 03/59] fix: integer option values beyond the range of Index
 are silently wrapped when read from text

---
 src/Common/IpOptionsList.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Common/IpOptionsList.cpp b/src/Common/IpOptionsList.cpp
index dffc462..e72c45e 100644
--- a/src/Common/IpOptionsList.cpp
+++ b/src/Common/IpOptionsList.cpp
@@ -621,8 +621,8 @@ bool OptionsList::GetIntegerValue(
    if( find_tag(tag, prefix, strvalue) )
    {
       char* p_end;
-      size_t retval = strtol(strvalue.c_str(), &p_end, 10);
-      if( *p_end != '\0' && !isspace(*p_end) )
+      long retval = strtol(strvalue.c_str(), &p_end, 10);
+      if( (*p_end != '\0' && !isspace(*p_end)) || static_cast<long>(static_cast<Index>(retval)) != retval )
       {
          std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer value \"" + strvalue
                            + "\" found.\n";
@@ -777,8 +777,8 @@ bool OptionsList::ReadFromStream(
          else if( option->Type() == OT_Integer )
          {
             char* p_end;
-            size_t retval = strtol(value.c_str(), &p_end, 10);
-            if( *p_end != '\0' && !isspace(*p_end) )
+            long retval = strtol(value.c_str(), &p_end, 10);
+            if( (*p_end != '\0' && !isspace(*p_end)) || static_cast<long>(static_cast<Index>(retval)) != retval )
             {
                std::string msg = "Option \"" + tag + "\": Integer value expected, but non-integer option value \""
                                  + value + "\" found.\n";
-- 
2.43.0


From 5164040e252ec0b21610f68f8239f365c4a671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 04/59] fix: Vector::HasValidNumbers may use an uninitialised
 cache tag

---
 src/LinAlg/IpVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpVector.hpp b/src/LinAlg/IpVector.hpp
index 67aab42..0c74120 100644
--- a/src/LinAlg/IpVector.hpp
+++ b/src/LinAlg/IpVector.hpp
@@ -542,6 +542,7 @@ inline Vector::Vector(
      min_cache_tag_(0),
      sum_cache_tag_(0),
      sumlogs_cache_tag_(0),
+     valid_cache_tag_(0),
      cached_valid_(0)
 {
    DBG_ASSERT(IsValid(owner_space_));
-- 
2.43.0


From f915df174c2f4264fdbc93f4004bb01d08f2d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 05/59] fix: DenseVector::ElementWiseSelect does not take the
 sign of its own entries

---
 src/LinAlg/IpDenseVector.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 5b90313..f200a30 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -407,7 +407,7 @@ void DenseVector::ElementWiseSelectImpl(
       }
       if( dense_x->homogeneous_ )
       {
-         scalar_ *= dense_x->scalar_;
+         scalar_ = scalar_ > 0.0 ? dense_x->scalar_ : -dense_x->scalar_;
       }
       else
       {
@@ -415,7 +415,7 @@ void DenseVector::ElementWiseSelectImpl(
          Number* vals = values_allocated();
          for( Index i = 0; i < Dim(); i++ )
          {
-            vals[i] = scalar_ * values_x[i];
+            vals[i] = scalar_ > 0.0 ? values_x[i] : -values_x[i];
          }
       }
    }
@@ -423,20 +423,17 @@ void DenseVector::ElementWiseSelectImpl(
    {
       if( dense_x->homogeneous_ )
       {
-         if( dense_x->scalar_ != 1.0 )
+         for( Index i = 0; i < Dim(); i++ )
          {
-            for( Index i = 0; i < Dim(); i++ )
+            if( values_[i] > 0.0 )
             {
-               if( values_[i] > 0.0 )
-               {
-                  values_[i] = dense_x->scalar_;
-               }
-               else if( values_[i] < 0.0 )
-               {
-                  values_[i] = -dense_x->scalar_;
-               }
-               // else values_[i] remains at 0.0
+               values_[i] = dense_x->scalar_;
             }
+            else if( values_[i] < 0.0 )
+            {
+               values_[i] = -dense_x->scalar_;
+            }
+            // else values_[i] remains at 0.0
          }
       }
       else
-- 
2.43.0


From f9b99eb148affd3f20c885687ba42fa10c47a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 06/59] fix: DenseVector::CopyToPos loses the entries of a
 homogeneous target and source

---
 src/LinAlg/IpDenseVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index f200a30..84ba872 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1544,12 +1544,15 @@ void DenseVector::CopyToPos(
    const DenseVector* dense_x = static_cast<const DenseVector*>(&x);
    DBG_ASSERT(dynamic_cast<const DenseVector*>(&x));
 
+   if( homogeneous_ )
+   {
+      set_values_from_scalar();
+   }
    Number* vals = values_allocated();
-   homogeneous_ = false;
 
    if( dense_x->homogeneous_ )
    {
-      IpBlasCopy(dim_x, &scalar_, 0, vals + Pos, 1);
+      IpBlasCopy(dim_x, &dense_x->scalar_, 0, vals + Pos, 1);
    }
    else
    {
-- 
2.43.0


From 234c90c203fbd6fa93f76a31ee6a3c6c23c1e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 07/59] fix: DenseVector::AddTwoVectors adds the second vector
 Dim() times for a=0, b=c=1

---
 src/LinAlg/IpDenseVector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index 84ba872..fff766b 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -1025,10 +1025,7 @@ void DenseVector::AddTwoVectorsImpl(
          }
          else if( b == 1. )
          {
-            for( Index i = 0; i < Dim(); i++ )
-            {
-               IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
-            }
+            IpBlasAxpy(Dim(), 1., values_v2, 1, values_, 1);
          }
          else if( b == -1. )
          {
-- 
2.43.0


From 67e75047f22b2b1b2b02ec8ca0f786412c25efe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 08/59] fix: norms of an empty DenseVector that was set to
 infinity are NaN

---
 src/LinAlg/IpDenseVector.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LinAlg/IpDenseVector.cpp b/src/LinAlg/IpDenseVector.cpp
index fff766b..9f7a57e 100644
--- a/src/LinAlg/IpDenseVector.cpp
+++ b/src/LinAlg/IpDenseVector.cpp
@@ -221,6 +221,11 @@ Number DenseVector::DotImpl(
 Number DenseVector::Nrm2Impl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    if( homogeneous_ )
    {
       return std::sqrt((Number) Dim()) * std::abs(scalar_);
@@ -234,6 +239,11 @@ Number DenseVector::Nrm2Impl() const
 Number DenseVector::AsumImpl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    if( homogeneous_ )
    {
       return Dim() * std::abs(scalar_);
@@ -678,6 +688,11 @@ Number DenseVector::MinImpl() const
 Number DenseVector::SumImpl() const
 {
    DBG_ASSERT(initialized_);
+   if( Dim() == 0 )
+   {
+      return 0.;
+   }
+
    Number sum;
    if( homogeneous_ )
    {
-- 
2.43.0


From b42338d23bc6e5dfc918c885ba8a36300d914460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 09/59] fix: CompoundMatrix::ComputeColAMax stores column
 maxima in the component of the row

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index c994c78..8519ccf 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -702,7 +702,7 @@ void CompoundMatrix::ComputeColAMaxImpl(
             SmartPtr<Vector> vec_i;
             if( comp_vec )
             {
-               vec_i = comp_vec->GetCompNonConst(irow);
+               vec_i = comp_vec->GetCompNonConst(jcol);
             }
             else
             {
-- 
2.43.0


From 6af22d2d04f0c207a0214ad670d776445cd821d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 10/59] fix: CompoundSymMatrix::ComputeRowAMax uses row maxima
 of transposed blocks

---
 src/LinAlg/IpCompoundSymMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundSymMatrix.cpp b/src/LinAlg/IpCompoundSymMatrix.cpp
index 0c190a4..f653f1b 100644
--- a/src/LinAlg/IpCompoundSymMatrix.cpp
+++ b/src/LinAlg/IpCompoundSymMatrix.cpp
@@ -231,7 +231,7 @@ void CompoundSymMatrix::ComputeRowAMaxImpl(
          }
          else if( jcol > irow && ConstComp(jcol, irow) )
          {
-            ConstComp(jcol, irow)->ComputeRowAMax(*vec_i, false);
+            ConstComp(jcol, irow)->ComputeColAMax(*vec_i, false);
          }
       }
    }
-- 
2.43.0


From a01a97701e49e6587d8b85cf0db4496db5304dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 11/59] fix: DenseGenMatrix row and column maxima look at the
 wrong elements

---
 src/LinAlg/IpDenseGenMatrix.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 481f65b..6ca57aa 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -384,9 +384,9 @@ void DenseGenMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
 
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol < NCols(); jcol++ )
+      for( Index irow = 0; irow < NRows(); irow++ )
       {
          vec_vals[irow] = Max(vec_vals[irow], std::abs(*vals));
          vals++;
@@ -409,9 +409,11 @@ void DenseGenMatrix::ComputeColAMaxImpl(
    const Number* vals = values_;
    for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      Index i = IpBlasIamax(NRows(), vals, 1);
-      vec_vals[jcol] = Max(vec_vals[jcol], std::abs(vals[i]));
-      vals += NRows();
+      for( Index irow = 0; irow < NRows(); irow++ )
+      {
+         vec_vals[jcol] = Max(vec_vals[jcol], std::abs(*vals));
+         vals++;
+      }
    }
 }
 
-- 
2.43.0


From d99b1b8dd73c98e36d024d88c5a18d8300e62128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 12/59] fix: DenseSymMatrix::ComputeRowAMax looks at the wrong
 elements

---
 src/LinAlg/IpDenseSymMatrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 0761d78..89d1f2c 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -242,9 +242,10 @@ void DenseSymMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
 
    const Number* vals = values_;
-   for( Index irow = 0; irow < NRows(); irow++ )
+   for( Index jcol = 0; jcol < NCols(); jcol++ )
    {
-      for( Index jcol = 0; jcol <= irow; jcol++ )
+      vals += jcol; // skip strictly upper triangular part
+      for( Index irow = jcol; irow < NRows(); irow++ )
       {
          const Number f = std::abs(*vals);
          vec_vals[irow] = Max(vec_vals[irow], f);
-- 
2.43.0


From 274052344f11d194cf8c5cf819e053658073c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 13/59] fix: ExpandedMultiVectorMatrix::HasValidNumbers is
 inverted

---
 src/LinAlg/IpExpandedMultiVectorMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
index 9b45e88..f0e7cf3 100644
--- a/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
+++ b/src/LinAlg/IpExpandedMultiVectorMatrix.cpp
@@ -168,7 +168,7 @@ bool ExpandedMultiVectorMatrix::HasValidNumbersImpl() const
 {
    for( Index i = 0; i < NRows(); i++ )
    {
-      if( IsValid(vecs_[i]) && vecs_[i]->HasValidNumbers() )
+      if( IsValid(vecs_[i]) && !vecs_[i]->HasValidNumbers() )
       {
          return false;
       }
-- 
2.43.0


From 5a433c1aabc525e578e6a38f15a6267a0c97e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 14/59] fix: IdentityMatrix ignores its factor in maxima and
 AddMSinvZ

---
 src/LinAlg/IpIdentityMatrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpIdentityMatrix.cpp b/src/LinAlg/IpIdentityMatrix.cpp
index 10ff48e..cc18a52 100644
--- a/src/LinAlg/IpIdentityMatrix.cpp
+++ b/src/LinAlg/IpIdentityMatrix.cpp
@@ -52,12 +52,12 @@ void IdentityMatrix::ComputeRowAMaxImpl(
 {
    if( init )
    {
-      rows_norms.Set(1.);
+      rows_norms.Set(std::abs(factor_));
    }
    else
    {
       SmartPtr<Vector> v = rows_norms.MakeNew();
-      v->Set(1.);
+      v->Set(std::abs(factor_));
       rows_norms.ElementWiseMax(*v);
    }
 }
@@ -91,7 +91,7 @@ void IdentityMatrix::AddMSinvZImpl(
    DBG_ASSERT(NCols() == Z.Dim());
    DBG_ASSERT(NCols() == X.Dim());
 
-   X.AddVectorQuotient(alpha, Z, S, 1.);
+   X.AddVectorQuotient(alpha * factor_, Z, S, 1.);
 }
 
 } // namespace Ipopt
-- 
2.43.0


From d6fddfb3f242e6cac6e56632fd88dc19dcbd8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 15/59] fix: SymTMatrix::ComputeRowAMax forgets the given
 maxima

---
 src/LinAlg/TMatrices/IpSymTMatrix.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/LinAlg/TMatrices/IpSymTMatrix.cpp b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
index e85681f..118f180 100644
--- a/src/LinAlg/TMatrices/IpSymTMatrix.cpp
+++ b/src/LinAlg/TMatrices/IpSymTMatrix.cpp
@@ -182,9 +182,6 @@ void SymTMatrix::ComputeRowAMaxImpl(
    Number* vec_vals = dense_vec->Values();
    DBG_ASSERT(vec_vals != NULL);
 
-   const Number zero = 0.;
-   IpBlasCopy(NRows(), &zero, 0, vec_vals, 1);
-
    vec_vals--; // to deal with 1-based indexing in irn and jcn (I believe)
    for( Index i = 0; i < Nonzeros(); i++ )
    {
-- 
2.43.0


From 3742b536f959ea806f659ab0373411fc7e7d15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 16/59] fix: IdentityMatrix::SetFactor does not announce the
 change

---
 src/LinAlg/IpIdentityMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpIdentityMatrix.hpp b/src/LinAlg/IpIdentityMatrix.hpp
index 6f0e429..426aa26 100644
--- a/src/LinAlg/IpIdentityMatrix.hpp
+++ b/src/LinAlg/IpIdentityMatrix.hpp
@@ -36,6 +36,7 @@ public:
    )
    {
       factor_ = factor;
+      ObjectChanged();
    }
 
    /** Method for getting the factor for the identity matrix. */
-- 
2.43.0


From d0ee70070af432dd461f7ac3768db5012fc066f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 17/59] fix: DiagMatrix::SetDiag does not announce the change

---
 src/LinAlg/IpDiagMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/IpDiagMatrix.hpp b/src/LinAlg/IpDiagMatrix.hpp
index f12f84f..e484370 100644
--- a/src/LinAlg/IpDiagMatrix.hpp
+++ b/src/LinAlg/IpDiagMatrix.hpp
@@ -38,6 +38,7 @@ public:
    )
    {
       diag_ = &diag;
+      ObjectChanged();
    }
 
    /** Get the diagonal elements. */
-- 
2.43.0


From 84a2b0a544d603b621fe6ac5c93bb03bd8022cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 18/59] fix: products of dense matrices with homogeneous
 vectors read a missing array

---
 src/LinAlg/IpDenseGenMatrix.cpp | 4 ++--
 src/LinAlg/IpDenseSymMatrix.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/IpDenseGenMatrix.cpp b/src/LinAlg/IpDenseGenMatrix.cpp
index 6ca57aa..3e69c18 100644
--- a/src/LinAlg/IpDenseGenMatrix.cpp
+++ b/src/LinAlg/IpDenseGenMatrix.cpp
@@ -346,7 +346,7 @@ void DenseGenMatrix::MultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = false;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::TransMultVectorImpl(
@@ -368,7 +368,7 @@ void DenseGenMatrix::TransMultVectorImpl(
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
    bool trans = true;
-   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasGemv(trans, NRows(), NCols(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseGenMatrix::ComputeRowAMaxImpl(
diff --git a/src/LinAlg/IpDenseSymMatrix.cpp b/src/LinAlg/IpDenseSymMatrix.cpp
index 89d1f2c..ba6f190 100644
--- a/src/LinAlg/IpDenseSymMatrix.cpp
+++ b/src/LinAlg/IpDenseSymMatrix.cpp
@@ -51,7 +51,7 @@ void DenseSymMatrix::MultVectorImpl(
    DenseVector* dense_y = static_cast<DenseVector*>(&y);
    DBG_ASSERT(dynamic_cast<DenseVector*>(&y));
 
-   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->Values(), 1, beta, dense_y->Values(), 1);
+   IpBlasSymv(Dim(), alpha, values_, NRows(), dense_x->ExpandedValues(), 1, beta, dense_y->Values(), 1);
 }
 
 void DenseSymMatrix::FillIdentity(
-- 
2.43.0


From da2c03546a203e1449c83f7d3c26e9ba7c18b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 19/59] fix: IpBlasGemv swaps the dimensions of the matrix

---
 src/LinAlg/IpBlas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpBlas.cpp b/src/LinAlg/IpBlas.cpp
index 735e5e2..82d0c2b 100644
--- a/src/LinAlg/IpBlas.cpp
+++ b/src/LinAlg/IpBlas.cpp
@@ -322,7 +322,7 @@ void IpBlasGemv(
    Index         incY
 )
 {
-   ipindex M = nCols, N = nRows, LDA = ldA, INCX = incX, INCY = incY;
+   ipindex M = nRows, N = nCols, LDA = ldA, INCX = incX, INCY = incY;
 
    char TRANS;
    if( trans )
-- 
2.43.0


From ba383d065f7834aee6ae0586705a89dcf5b29e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 20/59] fix: CompoundMatrixSpace takes a non-square block
 structure for diagonal

---
 src/LinAlg/IpCompoundMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/IpCompoundMatrix.cpp b/src/LinAlg/IpCompoundMatrix.cpp
index 8519ccf..79d7bae 100644
--- a/src/LinAlg/IpCompoundMatrix.cpp
+++ b/src/LinAlg/IpCompoundMatrix.cpp
@@ -859,7 +859,7 @@ void CompoundMatrixSpace::SetCompSpace(
    comp_spaces_[irow][jcol] = &mat_space;
    allocate_block_[irow][jcol] = auto_allocate;
 
-   diagonal_ = true;
+   diagonal_ = (NComps_Rows() == NComps_Cols());
    for( Index i = 0; i < NComps_Rows(); i++ )
    {
       for( Index j = 0; j < NComps_Cols(); j++ )
-- 
2.43.0


From 1203961266032e7bdd0984ab3b75d7f7b47e9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 21/59] fix: do not use missing affine step in restoration
 phase with mehrotra_algorithm

---
 src/Algorithm/IpPDSearchDirCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpPDSearchDirCalc.cpp b/src/Algorithm/IpPDSearchDirCalc.cpp
index 7df9903..2116e89 100644
--- a/src/Algorithm/IpPDSearchDirCalc.cpp
+++ b/src/Algorithm/IpPDSearchDirCalc.cpp
@@ -78,10 +78,10 @@ bool PDSearchDirCalculator::ComputeSearchDirection()
       rhs->Set_y_c(*IpCq().curr_c());
       rhs->Set_y_d(*IpCq().curr_d_minus_s());
       Index nbounds = IpNLP().x_L()->Dim() + IpNLP().x_U()->Dim() + IpNLP().d_L()->Dim() + IpNLP().d_U()->Dim();
-      if( nbounds > 0 && mehrotra_algorithm_ )
+      // the affine step is not available if the mu update did not compute one, e.g., in the restoration phase with monotone mu update
+      if( nbounds > 0 && mehrotra_algorithm_ && IpData().HaveAffineDeltas() )
       {
          // set up the right hand side a la Mehrotra
-         DBG_ASSERT(IpData().HaveAffineDeltas());
          DBG_ASSERT(!IpData().HaveDeltas());
          const SmartPtr<const IteratesVector> delta_aff = IpData().delta_aff();
 
-- 
2.43.0


From 32a947a2f6eda81a064acbbd06c8d339c6ee7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 22/59] fix: do not access unset constraint values after failed
 evaluation if check_derivatives_for_naninf is set

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index 0d73b65..aea0272 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -580,7 +580,7 @@ SmartPtr<const Vector> OrigIpoptNLP::c(
          timing_statistics_.c_eval_time().End();
          if( !success || !IsFiniteNumber(unscaled_c->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_c->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_c->Nrm2()) )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The equality constraints contain an invalid number\n");
                unscaled_c->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_c");
@@ -629,7 +629,7 @@ SmartPtr<const Vector> OrigIpoptNLP::d(
          DBG_PRINT_VECTOR(2, "unscaled_d", *unscaled_d);
          if( !success || !IsFiniteNumber(unscaled_d->Nrm2()) )
          {
-            if( check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_d->Nrm2()) )
+            if( success && check_derivatives_for_naninf_ && !IsFiniteNumber(unscaled_d->Nrm2()) )
             {
                jnlst_->Printf(J_WARNING, J_NLP, "The inequality constraints contain an invalid number\n");
                unscaled_d->Print(*jnlst_, J_MOREDETAILED, J_MAIN, "unscaled_d");
-- 
2.43.0


From 2dc90c5d7a2658a506a3ddb1eb8efb6ee927711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 23/59] fix: crash in restoration phase for
 limited_memory_max_history=0

---
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 662f52e..3c3d0ad 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -384,7 +384,7 @@ void LimMemQuasiNewtonUpdater::UpdateHessian()
 
             bool augment_memory = UpdateInternalData(*s_new, *y_new, ypart_new);
 
-            if( update_for_resto_ )
+            if( update_for_resto_ && limited_memory_max_history_ > 0 )
             {
                Number dmin = D_->Min();
                if( dmin <= 0. )
-- 
2.43.0


From 0bb212964acfa3f6498ad4637d8803a99e1e4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 24/59] fix: do not use constraint values from failed
 evaluation

After a failed eval_g, internal_eval_g reset the tag of the Jacobian instead of
the one of the constraints. A second request at the same point was then
answered with stale values.
---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index a782341..0a5a782 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2845,7 +2845,7 @@ bool TNLPAdapter::internal_eval_g(
 
    if( !retval )
    {
-      x_tag_for_jac_g_ = 0;
+      x_tag_for_g_ = 0;
    }
 
    return retval;
-- 
2.43.0


From 8a20daee658f42738658b56f9851e98dc50fc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 25/59] fix: pass new_x=true if evaluating functions at a new
 point in FinalizeSolution

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 0a5a782..1b8e9db 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2107,7 +2107,11 @@ void TNLPAdapter::FinalizeSolution(
 {
    DBG_START_METH("TNLPAdapter::FinalizeSolution", dbg_verbosity);
 
-   update_local_x(x);
+   if( x.GetTag() != x_tag_for_iterates_ )
+   {
+      // do not call update_local_x() here, as the TNLP still needs to be told that x is new if functions are evaluated below
+      x_tag_for_iterates_ = 0;
+   }
    update_local_lambda(y_c, y_d);
 
    ResortX(x, full_x_);
-- 
2.43.0


From a699aedf3755250e0c12b7a223a621cc3d544de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 26/59] fix: compute bound multipliers of fixed variables also
 if stopping on a time limit

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 1b8e9db..15c0280 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2184,6 +2184,8 @@ void TNLPAdapter::FinalizeSolution(
    {
       case SUCCESS:
       case MAXITER_EXCEEDED:
+      case CPUTIME_EXCEEDED:
+      case WALLTIME_EXCEEDED:
       case STOP_AT_TINY_STEP:
       case STOP_AT_ACCEPTABLE_POINT:
       case LOCAL_INFEASIBILITY:
-- 
2.43.0


From 2e0376d925cd83aac1851d2faff86039d6dc83d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 27/59] fix: relax bounds of fixed variables for
 fixed_variable_treatment=relax_bounds

n_x_fixed_ is 0 for this treatment, so no bound was relaxed.
---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 15c0280..15fd152 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1421,7 +1421,7 @@ bool TNLPAdapter::GetBoundsInformation(
    {
       // Relax the bounds for fixed variables
       const Number bound_relax = Max(Number(1e-8), bound_relax_factor_);
-      for( Index i = 0; i < n_x_fixed_; i++ )
+      for( Index i = 0; i < n_full_x_; i++ )
       {
          if( x_l[i] == x_u[i] )
          {
-- 
2.43.0


From 778c1e26b12da0a682f40683d5e223996024d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 28/59] fix: initialize all of findiff_jac_ia_ if Jacobian is
 empty

---
 src/Interfaces/IpTNLPAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 15fd152..22e966f 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2971,7 +2971,7 @@ void TNLPAdapter::initialize_findiff_jac(
    }
    else
    {
-      memset(findiff_jac_ia_, 0, n_full_x_ * sizeof(Index));
+      memset(findiff_jac_ia_, 0, (n_full_x_ + 1) * sizeof(Index));
    }
    const Index* ja = findiff_jac_converter->JA();
    for( Index i = 0; i < findiff_jac_nnz_; i++ )
-- 
2.43.0


From a26080d25644e28ec2e91b46d0717f63d0a3bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 29/59] fix: evaluate Jacobian at the initial iterate for
 least_square_init_duals

The Jacobian was taken at the starting point as given by the user, possibly outside
the bounds, while the gradient was taken at the initial iterate.
---
 src/Algorithm/IpDefaultIterateInitializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpDefaultIterateInitializer.cpp b/src/Algorithm/IpDefaultIterateInitializer.cpp
index 226e2cf..3de58f9 100644
--- a/src/Algorithm/IpDefaultIterateInitializer.cpp
+++ b/src/Algorithm/IpDefaultIterateInitializer.cpp
@@ -408,8 +408,8 @@ bool DefaultIterateInitializer::CalculateLeastSquareDuals(
 
    SmartPtr<const SymMatrix> zeroW = IpNLP().uninitialized_h();
    DBG_PRINT_MATRIX(2, "zeroW", *zeroW);
-   SmartPtr<const Matrix> J_c = IpCq().curr_jac_c();
-   SmartPtr<const Matrix> J_d = IpCq().curr_jac_d();
+   SmartPtr<const Matrix> J_c = IpCq().trial_jac_c();
+   SmartPtr<const Matrix> J_d = IpCq().trial_jac_d();
 
    // Compute the entries in Hessian diagonals
    SmartPtr<Vector> Dx = IpData().trial()->x()->MakeNew();
-- 
2.43.0


From 1072c9660c93fe95a3ad3a8dd2d13b839b4653b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 30/59] fix: set all derivatives when using finite differences

The derivatives w.r.t. fixed variables were left uninitialized, but are used for
fixed_variable_treatment=make_constraint and for computing bound multipliers.
---
 src/Interfaces/IpTNLPAdapter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 22e966f..3b51c8e 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -1777,7 +1777,7 @@ bool TNLPAdapter::Eval_grad_f(
          for( Index i = 0; i < g_f.Dim(); i++ )
          {
             Index ivar = x_pos != NULL ? x_pos[i] : i;
-            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
+            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] || fixed_variable_treatment_ == MAKE_CONSTRAINT )
             {
                const Number xorig = full_x_pert[ivar];
                Number this_perturbation = findiff_perturbation_ * Max(Number(1.), std::abs(full_x_[ivar]));
@@ -2886,7 +2886,7 @@ bool TNLPAdapter::internal_eval_jac_g(
          // Compute the finite difference Jacobian
          for( Index ivar = 0; ivar < n_full_x_; ivar++ )
          {
-            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] )
+            if( findiff_x_l_[ivar] < findiff_x_u_[ivar] || fixed_variable_treatment_ == MAKE_CONSTRAINT )
             {
                const Number xorig = full_x_pert[ivar];
                Number this_perturbation = findiff_perturbation_ * Max(Number(1.), std::abs(full_x_[ivar]));
@@ -2910,6 +2910,14 @@ bool TNLPAdapter::internal_eval_jac_g(
                }
                full_x_pert[ivar] = xorig;
             }
+            else
+            {
+               // variable has been removed from the problem
+               for( Index i = findiff_jac_ia_[ivar]; i < findiff_jac_ia_[ivar + 1]; i++ )
+               {
+                  jac_g_[findiff_jac_postriplet_[i]] = 0.;
+               }
+            }
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
-- 
2.43.0


From 695b5ec22c9a40e2f882385f6235ae029adcc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 31/59] fix: treat a finite-difference Jacobian with NaN or Inf
 as evaluation failure

These values come from eval_g at perturbed points, and may make the linear solver crash.
---
 src/Interfaces/IpTNLPAdapter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index 3b51c8e..cb65135 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -2921,6 +2921,12 @@ bool TNLPAdapter::internal_eval_jac_g(
          }
          delete[] full_g_pert;
          delete[] full_x_pert;
+
+         // functions values at perturbed points may not be finite
+         if( retval && !IsFiniteNumber(IpBlasAsum(nz_full_jac_g_, jac_g_, 1)) )
+         {
+            retval = false;
+         }
       }
    }
 
-- 
2.43.0


From 2e4afd0f7487edb09a1926d6ea4f061c2aa0b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 32/59] fix: scale constraint sides by factors of their own
 constraint in get_curr_violations

The vectors of finite constraint sides are shorter than the vector of
inequalities if some constraint has only one side.
---
 src/Interfaces/IpTNLP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index 66b6067..d5b39b2 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -931,7 +931,7 @@ bool TNLP::get_curr_violations(
          // orig_d_L is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_L);
+            d_L = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_L(), d_L, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_L() returns NULL, use d_L instead
@@ -966,7 +966,7 @@ bool TNLP::get_curr_violations(
          // orig_d_U is unscaled, but we need the scaled one below (because d is scaled)
          if( orignlp->NLP_scaling()->have_d_scaling() )
          {
-            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_NonConst(d_U);
+            d_U = orignlp->NLP_scaling()->apply_vector_scaling_d_LU(*orignlp->Pd_U(), d_U, *d->OwnerSpace());
          }
       }
       else // if no relaxation, then orig_d_U() returns NULL, use d_U instead
-- 
2.43.0


From 706f6c191615ceee3a2087c1d38987daeb6f53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 33/59] fix: gradient of Lagrangian in get_curr_violations for
 fixed variables treated as constraints

The gradient of the internal Lagrangian already contains the multiplier y_c of
the constraint on a fixed variable, whose value is -z_L + z_U.
---
 src/Interfaces/IpTNLP.cpp | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/IpTNLP.cpp b/src/Interfaces/IpTNLP.cpp
index d5b39b2..977e5c3 100644
--- a/src/Interfaces/IpTNLP.cpp
+++ b/src/Interfaces/IpTNLP.cpp
@@ -894,25 +894,8 @@ bool TNLP::get_curr_violations(
       // such that the Gradient of the Lagrangian will be zero, so leaving them at 0 is correct here
       tnlp_adapter->ResortX(*curr_grad_lag_x(ip_data, ip_cq, orignlp, restonlp, scaled), grad_lag_x, false);
 
-      // if fixed_variable_treatment is make_constraint, then fixed variable contribute y_c*x to the Lagrangian
-      // however, we want to get -z_L + z_U
-      // using z_L = -y_c^-, z_U = y_c^+, this means to add -z_L + z_U - y_c x = y_c - y_c x = y_c (1-x)
-      if( n_x_fixed > 0 && fixed_variable_treatment == TNLPAdapter::MAKE_CONSTRAINT )
-      {
-         SmartPtr<const DenseVector> y_c = curr_y_c(ip_data, ip_cq, orignlp, restonlp, scaled);
-         const Number* c_rhs = tnlp_adapter->GetC_Rhs();
-         DBG_ASSERT(y_c->Dim() >= n_x_fixed);
-         if( y_c->IsHomogeneous() )
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Scalar() * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-         else
-            for( Index i = 0; i < n_x_fixed; ++i )
-            {
-               grad_lag_x[x_fixed_map[i]] += y_c->Values()[y_c->Dim() - n_x_fixed + i] * (1.0 - c_rhs[y_c->Dim() - n_x_fixed + i]);
-            }
-      }
+      // if fixed_variable_treatment is make_constraint, then fixed variables contribute y_c*(x-rhs) to the Lagrangian
+      // since z_L = -y_c^-, z_U = y_c^+ for fixed variables, its derivative y_c already equals -z_L + z_U
    }
 
    if( nlp_constraint_violation != NULL || compl_g != NULL )
-- 
2.43.0


From 4d3a24fb2b1ca9c6695acabd991b3fdb859b8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 34/59] fix: limit huge bound multipliers exactly by
 kappa_sigma

correct_bound_multiplier computed z + (kappa_sigma*mu/slack - z), which is off by
the rounding error of the original multiplier z if that is huge, so that the
result could exceed the limit.
---
 src/Algorithm/IpIpoptAlg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/IpIpoptAlg.cpp b/src/Algorithm/IpIpoptAlg.cpp
index d9092e5..ef8c6ed 100644
--- a/src/Algorithm/IpIpoptAlg.cpp
+++ b/src/Algorithm/IpIpoptAlg.cpp
@@ -1105,10 +1105,10 @@ Number IpoptAlgorithm::correct_bound_multiplier(
    Number max_correction_up = Max(Number(0.), -step_z->Min());
    if( max_correction_up > 0. )
    {
+      // new_trial_z = min(trial_z, kappa_sigma * mu / slack), without rounding errors if trial_z is huge
       SmartPtr<Vector> tmp = trial_z.MakeNew();
-      tmp->Set(0.);
-      step_z->ElementWiseMin(*tmp);
-      tmp->AddTwoVectors(1., trial_z, 1., *step_z, 0.);
+      tmp->AddOneVector(kappa_sigma_ * mu, *one_over_s, 0.);
+      tmp->ElementWiseMin(trial_z);
       new_trial_z = GetRawPtr(tmp);
    }
    else
-- 
2.43.0


From 04b38322002e77bb6b876b56f3d8513d37c8a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 35/59] fix: forget algorithm of previous optimization if a new
 one cannot be built

If building the algorithm failed in OptimizeNLP (e.g., because of an invalid
option), ReOptimizeNLP used the algorithm of an earlier optimization with the
data objects of the failed one, which could crash.
---
 src/Interfaces/IpIpoptApplication.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 44525ae..0901ffd 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -500,6 +500,10 @@ ApplicationReturnStatus IpoptApplication::OptimizeNLP(
 {
    ApplicationReturnStatus retValue = Internal_Error;
 
+   // Forget the algorithm of a previous optimization, as it does not fit to the objects created below
+   // (it would be used by ReOptimizeNLP() if the creation of the new algorithm failed)
+   alg_ = NULL;
+
    // Prepare internal data structures of the algorithm
    try
    {
-- 
2.43.0


From f34395d210a27c25d767e71db70c6251923a8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 36/59] fix: count filter resets so that max_filter_resets
 limits them

---
 src/Algorithm/IpFilterLSAcceptor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Algorithm/IpFilterLSAcceptor.cpp b/src/Algorithm/IpFilterLSAcceptor.cpp
index bd381a2..f17df92 100644
--- a/src/Algorithm/IpFilterLSAcceptor.cpp
+++ b/src/Algorithm/IpFilterLSAcceptor.cpp
@@ -412,6 +412,7 @@ FilterLSAcceptor::CheckAcceptabilityOfTrialPoint(
                Jnlst().Printf(J_DETAILED, J_LINE_SEARCH,
                               "Resetting filter because in %" IPOPT_INDEX_FORMAT " iterations last rejection was due to filter", count_successive_filter_rejections_);
                IpData().Append_info_string("F+");
+               n_filter_resets_++;
                Reset();
             }
          }
-- 
2.43.0


From 3515504e69b182565d608a343197ff195a5e7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:24 +0000
Subject: [PATCH 37/59] fix: keep the dual step of a soft restoration step that
 ends the soft restoration phase

FindAcceptableTrialPoint performed a second dual step with primal step size 0
on top of the soft restoration step when that step satisfied the original
criterion, overwriting the multipliers and reporting alpha_pr = 0.
---
 src/Algorithm/IpBacktrackingLineSearch.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Algorithm/IpBacktrackingLineSearch.cpp b/src/Algorithm/IpBacktrackingLineSearch.cpp
index 6782ac5..93fdaba 100644
--- a/src/Algorithm/IpBacktrackingLineSearch.cpp
+++ b/src/Algorithm/IpBacktrackingLineSearch.cpp
@@ -346,6 +346,7 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
    }
 
    bool accept = false;
+   bool soft_resto_step = false; // trial point (primal and dual) has been set by soft restoration step
    Index n_steps = 0;
    Number alpha_primal = 0.;
 
@@ -444,6 +445,7 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
             accept = TrySoftRestoStep(actual_delta, satisfies_original_criterion);
             if( accept )
             {
+               soft_resto_step = true;
                IpData().Set_info_alpha_primal_char('s');
                if( satisfies_original_criterion )
                {
@@ -625,11 +627,15 @@ void BacktrackingLineSearch::FindAcceptableTrialPoint()
    else if( !in_soft_resto_phase_ || tiny_step )
    {
       // we didn't do the restoration phase and are now updating the
-      // dual variables of the trial point
-      Number alpha_dual_max = IpCq().dual_frac_to_the_bound(IpData().curr_tau(), *actual_delta->z_L(),
-                              *actual_delta->z_U(), *actual_delta->v_L(), *actual_delta->v_U());
+      // dual variables of the trial point (unless a soft restoration
+      // step has done so already)
+      if( !soft_resto_step )
+      {
+         Number alpha_dual_max = IpCq().dual_frac_to_the_bound(IpData().curr_tau(), *actual_delta->z_L(),
+                                 *actual_delta->z_U(), *actual_delta->v_L(), *actual_delta->v_U());
 
-      PerformDualStep(alpha_primal, alpha_dual_max, actual_delta);
+         PerformDualStep(alpha_primal, alpha_dual_max, actual_delta);
+      }
 
       if( n_steps == 0 )
       {
-- 
2.43.0


From ef523998bc36475609052df77770bcfb2213a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 38/59] fix: scale initial bound multipliers inversely to the
 variables

---
 src/Algorithm/IpOrigIpoptNLP.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpOrigIpoptNLP.cpp b/src/Algorithm/IpOrigIpoptNLP.cpp
index aea0272..db7cc40 100644
--- a/src/Algorithm/IpOrigIpoptNLP.cpp
+++ b/src/Algorithm/IpOrigIpoptNLP.cpp
@@ -434,7 +434,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_L->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_L unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_L = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_L_, ConstPtr(z_L), *x_space_);
+         // multipliers scale inversely to the variables (see FinalizeSolution)
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_L_->MultVector(1.0, *z_L, 0.0, *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_L_->TransMultVector(1.0, *tmp_x, 0.0, *z_L);
       }
       if( obj_scal != 1. )
       {
@@ -446,7 +450,11 @@ bool OrigIpoptNLP::InitializeStructures(
       z_U->Print(*jnlst_, J_VECTOR, J_INITIALIZATION, "initial z_U unscaled");
       if( NLP_scaling()->have_x_scaling() )
       {
-         z_U = NLP_scaling()->apply_vector_scaling_x_LU_NonConst(*Px_U_, ConstPtr(z_U), *x_space_);
+         // multipliers scale inversely to the variables (see FinalizeSolution)
+         SmartPtr<Vector> tmp_x = x_space_->MakeNew();
+         Px_U_->MultVector(1.0, *z_U, 0.0, *tmp_x);
+         tmp_x = NLP_scaling()->unapply_vector_scaling_x_NonConst(ConstPtr(tmp_x));
+         Px_U_->TransMultVector(1.0, *tmp_x, 0.0, *z_U);
       }
       if( obj_scal != 1. )
       {
-- 
2.43.0


From aaf1f43090b802d795b0b32810718ca65848c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 39/59] fix: forget the statistics of an earlier solve when
 setting up an optimization fails

---
 src/Interfaces/IpIpoptApplication.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index 0901ffd..c59b4c6 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -503,6 +503,7 @@ ApplicationReturnStatus IpoptApplication::OptimizeNLP(
    // Forget the algorithm of a previous optimization, as it does not fit to the objects created below
    // (it would be used by ReOptimizeNLP() if the creation of the new algorithm failed)
    alg_ = NULL;
+   statistics_ = NULL;  // and its statistics
 
    // Prepare internal data structures of the algorithm
    try
-- 
2.43.0


From b665e5d29496fcef32e27b67fc543fb11e70414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:59 +0000
Subject: [PATCH 40/59] fix: piecewise penalty line search starts every
 optimization with an empty list

---
 src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
index 8975527..e97b5a6 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyLSAcceptor.cpp
@@ -216,6 +216,8 @@ bool CGPenaltyLSAcceptor::InitializeImpl(
    accepted_by_Armijo_ = true;
    //never_do_restor_ = true;
    jump_for_tiny_step_ = 0;
+   // forget entries of an earlier optimization
+   PiecewisePenalty_.Clear();
 
    return true;
 }
-- 
2.43.0


From 90e986fd718c13a49f096de36b7f889d315828b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 41/59] fix: refuse to re-optimize with another
 hessian_approximation instead of crashing

---
 src/Algorithm/IpExactHessianUpdater.cpp      | 9 ++++++++-
 src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpExactHessianUpdater.cpp b/src/Algorithm/IpExactHessianUpdater.cpp
index a5e51c8..4e49615 100644
--- a/src/Algorithm/IpExactHessianUpdater.cpp
+++ b/src/Algorithm/IpExactHessianUpdater.cpp
@@ -7,6 +7,7 @@
 //               derived file from IpFilterLineSearch.cpp
 
 #include "IpExactHessianUpdater.hpp"
+#include "IpOrigIpoptNLP.hpp"
 
 namespace Ipopt
 {
@@ -16,10 +17,16 @@ static const Index dbg_verbosity = 0;
 #endif
 
 bool ExactHessianUpdater::InitializeImpl(
-   const OptionsList& /*options*/,
+   const OptionsList& options,
    const std::string& /*prefix*/
 )
 {
+   // This option may have been changed since the algorithm was built (re-optimization)
+   Index enum_int;
+   options.GetEnumValue("hessian_approximation", enum_int, "");
+   ASSERT_EXCEPTION(HessianApproximationType(enum_int) == EXACT, OPTION_INVALID,
+                    "Option \"hessian_approximation\" must not be changed for a re-optimization.");
+
    return true;
 }
 
diff --git a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
index 3c3d0ad..d0d693c 100644
--- a/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
+++ b/src/Algorithm/IpLimMemQuasiNewtonUpdater.cpp
@@ -5,6 +5,7 @@
 // Authors:  Andreas Waechter                 IBM    2005-12-26
 
 #include "IpLimMemQuasiNewtonUpdater.hpp"
+#include "IpOrigIpoptNLP.hpp"
 #include "IpRestoIpoptNLP.hpp"
 
 #include <cmath>
@@ -99,8 +100,13 @@ bool LimMemQuasiNewtonUpdater::InitializeImpl(
    const std::string& prefix
 )
 {
-   options.GetIntegerValue("limited_memory_max_history", limited_memory_max_history_, prefix);
+   // This option may have been changed since the algorithm was built (re-optimization)
    Index enum_int;
+   options.GetEnumValue("hessian_approximation", enum_int, "");
+   ASSERT_EXCEPTION(HessianApproximationType(enum_int) == LIMITED_MEMORY, OPTION_INVALID,
+                    "Option \"hessian_approximation\" must not be changed for a re-optimization.");
+
+   options.GetIntegerValue("limited_memory_max_history", limited_memory_max_history_, prefix);
    options.GetEnumValue("limited_memory_update_type", enum_int, prefix);
    limited_memory_update_type_ = LMUpdateType(enum_int);
    options.GetEnumValue("limited_memory_initialization", enum_int, prefix);
-- 
2.43.0


From 71d0773030cec11de9a4c2e2009a1b44e3e47d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 42/59] fix: do not deliver the iterate of an earlier
 optimization when the setup of a re-optimization fails

---
 src/Interfaces/IpIpoptApplication.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpIpoptApplication.cpp b/src/Interfaces/IpIpoptApplication.cpp
index c59b4c6..7c766b6 100644
--- a/src/Interfaces/IpIpoptApplication.cpp
+++ b/src/Interfaces/IpIpoptApplication.cpp
@@ -627,6 +627,7 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
 
    ApplicationReturnStatus retValue = Internal_Error;
    SolverReturn status = INTERNAL_ERROR;
+   bool initialized = false;
    try
    {
       // check whether timing statistics need to be printed
@@ -640,6 +641,7 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
 
       // Set up the algorithm
       p2alg->Initialize(*jnlst_, *p2ip_nlp, *p2ip_data, *p2ip_cq, *options_, "");
+      initialized = true;
 
       // If selected, print the user options
       bool print_user_options;
@@ -894,7 +896,8 @@ ApplicationReturnStatus IpoptApplication::call_optimize()
    bool skip_finalize_solution_call;
    options_->GetBoolValue("skip_finalize_solution_call", skip_finalize_solution_call, "");
 
-   if( !skip_finalize_solution_call && IsValid(p2ip_data->curr()) && IsValid(p2ip_data->curr()->x()) )
+   // if the setup failed, then the iterate (if any) is from an earlier optimization
+   if( initialized && !skip_finalize_solution_call && IsValid(p2ip_data->curr()) && IsValid(p2ip_data->curr()->x()) )
    {
       SmartPtr<const Vector> c;
       SmartPtr<const Vector> d;
-- 
2.43.0


From a6bf93b32a38971422a265546be8ceb32670bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 43/59] fix: do not use the penalty parameter of the CG penalty
 method before it is set

---
 src/contrib/CGPenalty/IpCGPenaltyCq.cpp   | 7 +++++++
 src/contrib/CGPenalty/IpCGPenaltyData.cpp | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
index bb69756..bf01183 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyCq.cpp
@@ -273,6 +273,13 @@ Number CGPenaltyCq::curr_cg_pert_fact()
    DBG_START_METH("IpoptCalculatedQuantities::curr_cg_pert_fact()",
                   dbg_verbosity);
 
+   // A system may have to be solved before the penalty parameter has been
+   // set (e.g., by the oracle for the first barrier parameter)
+   if( !CGPenData().KKTPenaltyInitialized() )
+   {
+      return 0.;
+   }
+
    Number result;
    SmartPtr<const Vector> x = ip_data_->curr()->x();
    SmartPtr<const Vector> s = ip_data_->curr()->s();
diff --git a/src/contrib/CGPenalty/IpCGPenaltyData.cpp b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
index 9f93162..0367d87 100644
--- a/src/contrib/CGPenalty/IpCGPenaltyData.cpp
+++ b/src/contrib/CGPenalty/IpCGPenaltyData.cpp
@@ -27,6 +27,8 @@ bool CGPenaltyData::Initialize(
 
    initialize_called_ = true;
 
+   curr_penalty_ = 0.;
+   curr_kkt_penalty_ = 0.;
    penalty_initialized_ = false;
    kkt_penalty_initialized_ = false;
    curr_penalty_pert_ = 0.;
-- 
2.43.0


From e02cf5774e6b631358a5864a4e997fc1639d2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:21 +0000
Subject: [PATCH 44/59] fix: a linear system whose solution failed was used
 without inertia check in the next call with the same matrix

---
 src/Algorithm/IpPDFullSpaceSolver.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpPDFullSpaceSolver.cpp b/src/Algorithm/IpPDFullSpaceSolver.cpp
index 195ab4d..2b0919e 100644
--- a/src/Algorithm/IpPDFullSpaceSolver.cpp
+++ b/src/Algorithm/IpPDFullSpaceSolver.cpp
@@ -445,7 +445,6 @@ bool PDFullSpaceSolver::SolveOnce(
    bool uptodate = dummy_cache_.GetCachedResult(dummy, deps);
    if( !uptodate )
    {
-      dummy_cache_.AddCachedResult(dummy, deps);
       augsys_improved_ = false;
    }
    // improve_current_solution can only be true, if that system has
@@ -483,6 +482,10 @@ bool PDFullSpaceSolver::SolveOnce(
    }
    else
    {
+      // Until this system has been solved successfully, there is no matrix
+      // whose perturbations could be reused
+      dummy_cache_.Clear();
+
       const Index numberOfEVals = rhs.y_c()->Dim() + rhs.y_d()->Dim();
       // counter for the number of trial evaluations
       // ToDo is not at the correct place
@@ -494,7 +497,11 @@ bool PDFullSpaceSolver::SolveOnce(
       Number delta_s;
       Number delta_c;
       Number delta_d;
-      perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d);
+      if( !perturbHandler_->ConsiderNewSystem(delta_x, delta_s, delta_c, delta_d) )
+      {
+         IpData().TimingStats().PDSystemSolverSolveOnce().End();
+         return false;
+      }
 
       retval = SYMSOLVER_SINGULAR;
       while( retval != SYMSOLVER_SUCCESS )
@@ -522,6 +529,7 @@ bool PDFullSpaceSolver::SolveOnce(
          }
          if( retval == SYMSOLVER_FATAL_ERROR )
          {
+            IpData().TimingStats().PDSystemSolverSolveOnce().End();
             return false;
          }
          if( retval == SYMSOLVER_SINGULAR && (rhs.y_c()->Dim() + rhs.y_d()->Dim() > 0) )
@@ -647,6 +655,8 @@ bool PDFullSpaceSolver::SolveOnce(
                      delta_s, delta_c, delta_d);
       // Set the perturbation values in the Data object
       IpData().setPDPert(delta_x, delta_s, delta_c, delta_d);
+      // From now on, this system can be solved again with these values
+      dummy_cache_.AddCachedResult(dummy, deps);
    }
 
    // Compute the remaining sol Vectors
-- 
2.43.0


From 6c425d3fe0135f5fe82f77d4c21dc3158fc5ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 45/59] fix: the first Hessian perturbation was derived from a
 rejected too large value instead of the last successful one

---
 src/Algorithm/IpPDPerturbationHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index 443c362..b72eb6d 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -398,6 +398,10 @@ bool PDPerturbationHandler::get_deltas_for_wrong_inertia(
    {
       Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
                      "delta_x perturbation is becoming too large: %e\n", delta_x_curr_);
+      // this value has not been successful, so it must not be used to choose
+      // the first perturbation for the next matrix
+      delta_x_curr_ = 0.;
+      delta_s_curr_ = 0.;
       delta_x_last_ = 0.;
       delta_s_last_ = 0.;
       IpData().Append_info_string("dx");
-- 
2.43.0


From 8b1c727b6e1b99b74c32c7e141a5c4e5978a85cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 46/59] fix: wrong row pointers in the CSR conversion of
 matrices with empty rows

---
 src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
index 4ab2bc5..eb4e3b0 100644
--- a/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
+++ b/src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp
@@ -184,9 +184,9 @@ Index TripletToCSRConverter::InitializeConverter(
          nonzeros_compressed_++;
          ja_tmp[nonzeros_compressed_] = jcol;
          ipos_first_tmp[nonzeros_compressed_] = list_iterator->PosTriplet();
-         if( cur_row != irow )
+         while( cur_row != irow )
          {
-            // this is in a new row
+            // this is in a new row (there may be empty rows in between)
 
             ia_[cur_row] = nonzeros_compressed_;
             cur_row++;
-- 
2.43.0


From 10e31b0e2e39cf4b0d90816a7127199f008aca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 47/59] fix: linear solver regarded as initialized after its
 initialization for a warm start failed

---
 src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
index c284bef..13490e5 100644
--- a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
+++ b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
@@ -415,6 +415,10 @@ ESymSolverStatus TSymLinearSolver::InitializeStructure(
          nonzeros = nonzeros_compressed_;
       }
       retval = solver_interface_->InitializeStructure(dim_, nonzeros, ia, ja);
+      if( retval != SYMSOLVER_SUCCESS )
+      {
+         return retval;
+      }
    }
    initialized_ = true;
    return retval;
-- 
2.43.0


From 9be9db87585f886168adbea95045c39628efc844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:11 +0000
Subject: [PATCH 48/59] fix: a matrix whose factorization failed was not
 factorized when it was to be solved again

---
 src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
index 13490e5..3ac3a5f 100644
--- a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
+++ b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
@@ -271,6 +271,13 @@ ESymSolverStatus TSymLinearSolver::MultiSolve(
       }
    }
 
+   // If there is no usable factorization of this matrix, the matrix has to be
+   // factorized again even if the next call is for the same matrix
+   if( retval != SYMSOLVER_SUCCESS )
+   {
+      atag_ = 0;
+   }
+
    // If the solve was successful, unscale the solution (if required)
    // and transfer the result into the Vectors
    if( retval == SYMSOLVER_SUCCESS )
-- 
2.43.0


From 41d51c279cdc7a74a88bbd0640693f25e612ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 49/59] fix: endless loop over the same linear system when the
 constraint perturbation had already been used or is zero

---
 src/Algorithm/IpPDPerturbationHandler.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Algorithm/IpPDPerturbationHandler.cpp b/src/Algorithm/IpPDPerturbationHandler.cpp
index b72eb6d..053ae76 100644
--- a/src/Algorithm/IpPDPerturbationHandler.cpp
+++ b/src/Algorithm/IpPDPerturbationHandler.cpp
@@ -327,15 +327,23 @@ bool PDPerturbationHandler::PerturbForSingularity(
             }
             break;
          case NO_TEST:
-            DBG_ASSERT(false && "we should not get here.");
+            // we only get here if the test was abandoned in PerturbForWrongInertia,
+            // that is, the constraints are already perturbed
+            retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
+            if( !retval )
+            {
+               return false;
+            }
+            break;
       }
    }
    else
    {
-      if( delta_c_curr_ > 0. )   // || get_deltas_for_wrong_inertia_called_) {
+      if( delta_c_curr_ > 0. || delta_cd() == 0. )   // || get_deltas_for_wrong_inertia_called_) {
       {
-         // If we already used a perturbation for the constraints, we do
-         // the same thing as if we were encountering negative curvature
+         // If we already used a perturbation for the constraints (or cannot
+         // perturb them), we do the same thing as if we were encountering
+         // negative curvature
          retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
          if( !retval )
          {
@@ -438,7 +446,7 @@ bool PDPerturbationHandler::PerturbForWrongInertia(
    finalize_test();
 
    bool retval = get_deltas_for_wrong_inertia(delta_x, delta_s, delta_c, delta_d);
-   if( !retval && delta_c == 0. )
+   if( !retval && delta_c == 0. && delta_cd() > 0. )
    {
       DBG_ASSERT(delta_d == 0.);
       delta_c_curr_ = delta_cd();
-- 
2.43.0


From f32371058018dfdced59db3f28c4737245a3fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:30 +0000
Subject: [PATCH 50/59] fix: line search not reset when several fast barrier
 parameter decreases end at the lower limit

---
 src/Algorithm/IpMonotoneMuUpdate.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/IpMonotoneMuUpdate.cpp b/src/Algorithm/IpMonotoneMuUpdate.cpp
index a9fad93..fba5a3e 100644
--- a/src/Algorithm/IpMonotoneMuUpdate.cpp
+++ b/src/Algorithm/IpMonotoneMuUpdate.cpp
@@ -139,6 +139,7 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
    Number kappa_eps_mu = barrier_tol_factor_ * mu;
 
    bool done = false;
+   bool reset_linesearch = false;
    bool tiny_step_flag = IpData().tiny_step_flag();
    IpData().Set_tiny_step_flag(false);
    while( (sub_problem_error <= kappa_eps_mu || tiny_step_flag) && !done && !first_iter_resto_ )
@@ -184,15 +185,20 @@ bool MonotoneMuUpdate::UpdateBarrierParameter()
          done = (sub_problem_error > kappa_eps_mu);
       }
 
-      // Reset the line search
-      if( done && mu_changed )
+      if( mu_changed )
       {
-         linesearch_->Reset();
+         reset_linesearch = true;
       }
 
       tiny_step_flag = false;
    }
 
+   // Reset the line search if the barrier parameter has been changed
+   if( reset_linesearch )
+   {
+      linesearch_->Reset();
+   }
+
    first_iter_resto_ = false;
    initialized_ = true;
 
-- 
2.43.0


From 6c86341725efac826eb8ece4c3e0fd9eee89dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:30 +0000
Subject: [PATCH 51/59] fix: adaptive barrier update used an accepted iterate
 or reference values that do not exist yet

---
 src/Algorithm/IpAdaptiveMuUpdate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/IpAdaptiveMuUpdate.cpp b/src/Algorithm/IpAdaptiveMuUpdate.cpp
index fda6939..d95a742 100644
--- a/src/Algorithm/IpAdaptiveMuUpdate.cpp
+++ b/src/Algorithm/IpAdaptiveMuUpdate.cpp
@@ -359,7 +359,7 @@ bool AdaptiveMuUpdate::UpdateBarrierParameter()
       {
          IpData().SetFreeMuMode(false);
 
-         if( restore_accepted_iterate_ )
+         if( restore_accepted_iterate_ && IsValid(accepted_point_) )
          {
             // Restore most recent accepted iterate to start fixed mode from
             Jnlst().Printf(J_DETAILED, J_BARRIER_UPDATE,
@@ -777,7 +777,7 @@ Number AdaptiveMuUpdate::lower_mu_safeguard()
                                    adaptive_mu_safeguard_factor_ * (primal_inf / init_primal_inf_));
    DBG_PRINT((1, "dual_inf=%e init_dual_inf_=%e primal_inf=%e init_primal_inf_=%e\n", dual_inf, init_dual_inf_, primal_inf, init_primal_inf_));
 
-   if( adaptive_mu_globalization_ == KKT_ERROR )
+   if( adaptive_mu_globalization_ == KKT_ERROR && !refs_vals_.empty() )
    {
       lower_mu_safeguard = Min(lower_mu_safeguard, min_ref_val());
    }
-- 
2.43.0


From 0a0b8fd7c2d4e5d7a2031d4c0627e40865e37fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:30 +0000
Subject: [PATCH 52/59] fix: fraction-to-the-boundary parameter in fixed mode
 was computed from the previous barrier parameter

---
 src/Algorithm/IpAdaptiveMuUpdate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/IpAdaptiveMuUpdate.cpp b/src/Algorithm/IpAdaptiveMuUpdate.cpp
index d95a742..19164cc 100644
--- a/src/Algorithm/IpAdaptiveMuUpdate.cpp
+++ b/src/Algorithm/IpAdaptiveMuUpdate.cpp
@@ -331,7 +331,7 @@ bool AdaptiveMuUpdate::UpdateBarrierParameter()
             {
                THROW_EXCEPTION(TINY_STEP_DETECTED, "Problem solved to best possible numerical accuracy");
             }
-            Number new_tau = Compute_tau_monotone(mu);
+            Number new_tau = Compute_tau_monotone(new_mu);
             IpData().Set_mu(new_mu);
             IpData().Set_tau(new_tau);
             Jnlst().Printf(J_DETAILED, J_BARRIER_UPDATE,
-- 
2.43.0


From 98a2fefd52a4574704b292a8cb7a5174c08ec375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:42 +0000
Subject: [PATCH 53/59] fix: adaptive barrier update could go below mu_min or
 mu_target

---
 src/Algorithm/IpAdaptiveMuUpdate.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Algorithm/IpAdaptiveMuUpdate.cpp b/src/Algorithm/IpAdaptiveMuUpdate.cpp
index 19164cc..e71067e 100644
--- a/src/Algorithm/IpAdaptiveMuUpdate.cpp
+++ b/src/Algorithm/IpAdaptiveMuUpdate.cpp
@@ -326,7 +326,8 @@ bool AdaptiveMuUpdate::UpdateBarrierParameter()
             Number compl_inf_tol = std::abs(IpNLP().NLP_scaling()->apply_obj_scaling(compl_inf_tol_));
             Number new_mu = Min(mu_linear_decrease_factor_ * mu, std::pow(mu, mu_superlinear_decrease_power_));
             DBG_PRINT((1, "new_mu = %e, compl_inf_tol = %e tol = %e\n", new_mu, compl_inf_tol, tol));
-            new_mu = Max(new_mu, Min(compl_inf_tol, tol) / (barrier_tol_factor_ + Number(1.)));
+            new_mu = Max(new_mu, mu_target_, Min(compl_inf_tol, tol) / (barrier_tol_factor_ + Number(1.)));
+            new_mu = Max(new_mu, mu_min_);
             if( tiny_step_flag && new_mu == mu )
             {
                THROW_EXCEPTION(TINY_STEP_DETECTED, "Problem solved to best possible numerical accuracy");
@@ -407,7 +408,7 @@ bool AdaptiveMuUpdate::UpdateBarrierParameter()
          return false;
       }
 
-      mu = Max(mu, mu_min_);
+      mu = Max(mu, mu_min_, mu_target_);
       Number mu_lower_safe = lower_mu_safeguard();
       if( mu < mu_lower_safe )
       {
@@ -620,7 +621,7 @@ Number AdaptiveMuUpdate::NewFixedMu()
    new_mu = Max(new_mu, lower_mu_safeguard());
    new_mu = Min(new_mu, Number(0.1) * max_ref);
 
-   new_mu = Max(new_mu, mu_min_);
+   new_mu = Max(new_mu, mu_min_, mu_target_);
    new_mu = Min(new_mu, mu_max_);
 
    return new_mu;
-- 
2.43.0


From 5fed9a87a73f9da95f3d062159fa518e19890a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 54/59] fix: derivative checker did not report derivatives that
 are not a number

---
 src/Interfaces/IpTNLPAdapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/IpTNLPAdapter.cpp b/src/Interfaces/IpTNLPAdapter.cpp
index cb65135..437a8db 100644
--- a/src/Interfaces/IpTNLPAdapter.cpp
+++ b/src/Interfaces/IpTNLPAdapter.cpp
@@ -3167,7 +3167,7 @@ bool TNLPAdapter::CheckDerivatives(
          Number deriv_exact = grad_f[ivar];
          Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
          char cflag = ' ';
-         if( rel_error >= derivative_test_tol_ )
+         if( rel_error >= derivative_test_tol_ || !IsFiniteNumber(deriv_exact) )
          {
             cflag = '*';
             nerrors++;
@@ -3198,7 +3198,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( rel_error >= derivative_test_tol_ || !IsFiniteNumber(deriv_exact) )
                {
                   cflag = '*';
                   nerrors++;
@@ -3345,7 +3345,7 @@ bool TNLPAdapter::CheckDerivatives(
                }
                Number rel_error = std::abs(deriv_approx - deriv_exact) / Max(std::abs(deriv_approx), derivative_test_tol_);
                char cflag = ' ';
-               if( rel_error >= derivative_test_tol_ )
+               if( rel_error >= derivative_test_tol_ || !IsFiniteNumber(deriv_exact) )
                {
                   cflag = '*';
                   nerrors++;
-- 
2.43.0


From 7e5bbdde50a66135bd9b9e64feda353ad2753f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 55/59] fix: TNLPReducer counted nonzeros with wrong rows for
 Fortran-style indices

---
 src/Interfaces/IpTNLPReducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/IpTNLPReducer.cpp b/src/Interfaces/IpTNLPReducer.cpp
index b6a603b..872c5a8 100644
--- a/src/Interfaces/IpTNLPReducer.cpp
+++ b/src/Interfaces/IpTNLPReducer.cpp
@@ -139,10 +139,11 @@ bool TNLPReducer::get_nlp_info(
          delete[] jCol;
          return false;
       }
+      Index offset = (index_style_orig_ == FORTRAN_STYLE ? 1 : 0);
       nnz_jac_g_reduced_ = 0;
       nnz_jac_g_skipped_ = 0;
       for( Index i = 0; i < nnz_jac_g_orig_; i++ )
-         if( g_keep_map_[iRow[i]] != -1 )
+         if( g_keep_map_[iRow[i] - offset] != -1 )
          {
             nnz_jac_g_reduced_++;
          }
-- 
2.43.0


From 0802512b073c6a2ead5358e644d979de577be8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 56/59] fix: NLPBoundsRemover started lower bound multipliers
 with the wrong sign

---
 src/Algorithm/IpNLPBoundsRemover.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Algorithm/IpNLPBoundsRemover.cpp b/src/Algorithm/IpNLPBoundsRemover.cpp
index d2babf3..7185ef7 100644
--- a/src/Algorithm/IpNLPBoundsRemover.cpp
+++ b/src/Algorithm/IpNLPBoundsRemover.cpp
@@ -220,6 +220,11 @@ bool NLPBoundsRemover::GetStartingPoint(
    }
    bool retval = nlp_->GetStartingPoint(x, need_x, y_c, need_y_c, y_d_orig, need_y_d, z_L_orig, need_y_d, z_U_orig,
                                         need_y_d);
+   if( retval && need_y_d )
+   {
+      // the multiplier of x >= x_L, seen as inequality constraint, is -z_L
+      z_L_orig->Scal(-1.);
+   }
    return retval;
 }
 
-- 
2.43.0


From 14261ea3eeeb1ab24a95cade508fcb8f9c54920c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:08:29 +0000
Subject: [PATCH 57/59] fix: C interface: accept missing constraint callbacks
 for problems without constraints

CreateIpoptProblem accepts eval_g and eval_jac_g being NULL if m is 0,
but IpoptSolve then refused the problem.
---
 src/Interfaces/IpStdInterfaceTNLP.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index c503246..402c4fa 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -86,9 +86,9 @@ StdInterfaceTNLP::StdInterfaceTNLP(
    ASSERT_EXCEPTION(index_style_ == 0 || index_style_ == 1, INVALID_STDINTERFACE_NLP, "Valid index styles are 0 (C style) or 1 (Fortran style)");
    ASSERT_EXCEPTION(start_x_, INVALID_STDINTERFACE_NLP, "No initial point for the variables provided.");
    ASSERT_EXCEPTION(eval_f_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the value of objective function provided.");
-   ASSERT_EXCEPTION(eval_g_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the values of constraints provided.");
+   ASSERT_EXCEPTION(eval_g_ || n_con_ == 0, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the values of constraints provided.");
    ASSERT_EXCEPTION(eval_grad_f_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the gradient of objective function provided.");
-   ASSERT_EXCEPTION(eval_jac_g_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the Jacobian of the constraints provided.");
+   ASSERT_EXCEPTION(eval_jac_g_ || n_con_ == 0, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the Jacobian of the constraints provided.");
    ASSERT_EXCEPTION(eval_h_, INVALID_STDINTERFACE_NLP, "No callback function for evaluating the Hessian of the constraints provided.");
 
    if( x_scaling != NULL )
@@ -293,6 +293,12 @@ bool StdInterfaceTNLP::eval_g(
 
    apply_new_x(new_x, n, x);
 
+   if( eval_g_ == NULL )
+   {
+      // no callback needed if there are no constraints
+      return true;
+   }
+
    Bool retval = (*eval_g_)(n, non_const_x_, (Bool) new_x, m, g, user_data_);
 
    return (retval != 0);
@@ -315,6 +321,13 @@ bool StdInterfaceTNLP::eval_jac_g(
    DBG_ASSERT((iRow != NULL && jCol != NULL && values == NULL) || (iRow == NULL && jCol == NULL && values != NULL));
 
    apply_new_x(new_x, n, x);
+
+   if( eval_jac_g_ == NULL )
+   {
+      // no callback needed if there are no constraints
+      return true;
+   }
+
    Bool retval = (*eval_jac_g_)(n, non_const_x_, (Bool) new_x, m, nele_jac, iRow, jCol, values, user_data_);
 
    return (retval != 0);
-- 
2.43.0


From c808886013e1fb19221d05c2301eada4b2f198e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:08:29 +0000
Subject: [PATCH 58/59] fix: C interface: warm start without constraints needs
 no constraint multipliers

IpoptSolve refused to warm start a problem with m=0 if mult_g was NULL.
---
 src/Interfaces/IpStdInterfaceTNLP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/IpStdInterfaceTNLP.cpp b/src/Interfaces/IpStdInterfaceTNLP.cpp
index 402c4fa..7d8bb35 100644
--- a/src/Interfaces/IpStdInterfaceTNLP.cpp
+++ b/src/Interfaces/IpStdInterfaceTNLP.cpp
@@ -233,7 +233,7 @@ bool StdInterfaceTNLP::get_starting_point(
       }
    }
 
-   if( init_lambda )
+   if( init_lambda && m > 0 )
    {
       if( start_lam_ == NULL )
       {
-- 
2.43.0


From 4fa6da4c3439b5a42f710c38ca5fb5b835b25a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:07 +0000
Subject: [PATCH 59/59] fix: linear solver wrapper without IpoptData crashed
 when scaling or converting the matrix

---
 .../LinearSolvers/IpTSymLinearSolver.cpp      | 45 +++++++++++++++----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
index 3ac3a5f..8ea0d90 100644
--- a/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
+++ b/src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp
@@ -415,10 +415,16 @@ ESymSolverStatus TSymLinearSolver::InitializeStructure(
       }
       else
       {
-         IpData().TimingStats().LinearSystemStructureConverter().Start();
+         if( HaveIpData() )
+         {
+            IpData().TimingStats().LinearSystemStructureConverter().Start();
+         }
          ia = triplet_to_csr_converter_->IA();
          ja = triplet_to_csr_converter_->JA();
-         IpData().TimingStats().LinearSystemStructureConverter().End();
+         if( HaveIpData() )
+         {
+            IpData().TimingStats().LinearSystemStructureConverter().End();
+         }
          nonzeros = nonzeros_compressed_;
       }
       retval = solver_interface_->InitializeStructure(dim_, nonzeros, ia, ja);
@@ -445,7 +451,10 @@ bool TSymLinearSolver::IncreaseQuality()
    {
       Jnlst().Printf(J_DETAILED, J_LINEAR_ALGEBRA,
                      "Switching on scaling of the linear system (on demand).\n");
-      IpData().Append_info_string("Mc");
+      if( HaveIpData() )
+      {
+         IpData().Append_info_string("Mc");
+      }
       use_scaling_ = true;
       just_switched_on_scaling_ = true;
       return true;
@@ -493,7 +502,10 @@ void TSymLinearSolver::GiveMatrixToSolver(
 
    if( use_scaling_ )
    {
-      IpData().TimingStats().LinearSystemScaling().Start();
+      if( HaveIpData() )
+      {
+         IpData().TimingStats().LinearSystemScaling().Start();
+      }
       DBG_ASSERT(scaling_factors_);
       if( new_matrix || just_switched_on_scaling_ )
       {
@@ -530,14 +542,23 @@ void TSymLinearSolver::GiveMatrixToSolver(
             DBG_PRINT((3, "KKTscaled(%6" IPOPT_INDEX_FORMAT ",%6" IPOPT_INDEX_FORMAT ") = %24.16e\n", airn_[i], ajcn_[i], atriplet[i]));
          }
       }
-      IpData().TimingStats().LinearSystemScaling().End();
+      if( HaveIpData() )
+      {
+         IpData().TimingStats().LinearSystemScaling().End();
+      }
    }
 
    if( matrix_format_ != SparseSymLinearSolverInterface::Triplet_Format )
    {
-      IpData().TimingStats().LinearSystemStructureConverter().Start();
+      if( HaveIpData() )
+      {
+         IpData().TimingStats().LinearSystemStructureConverter().Start();
+      }
       triplet_to_csr_converter_->ConvertValues(nonzeros_triplet_, atriplet, nonzeros_compressed_, pa);
-      IpData().TimingStats().LinearSystemStructureConverter().End();
+      if( HaveIpData() )
+      {
+         IpData().TimingStats().LinearSystemStructureConverter().End();
+      }
       delete[] atriplet;
    }
 
@@ -663,7 +684,10 @@ ESymSolverStatus TSymLinearSolver::DetermineDependentRows(
 
    if( use_scaling_ )
    {
-      IpData().TimingStats().LinearSystemScaling().Start();
+      if( HaveIpData() )
+      {
+         IpData().TimingStats().LinearSystemScaling().Start();
+      }
       DBG_ASSERT(scaling_factors_);
       // only compute scaling factors if the matrix has not been
       // changed since the last call to this method
@@ -695,7 +719,10 @@ ESymSolverStatus TSymLinearSolver::DetermineDependentRows(
             DBG_PRINT((3, "KKTscaled(%6" IPOPT_INDEX_FORMAT ",%6" IPOPT_INDEX_FORMAT ") = %24.16e\n", airn_[i], ajcn_[i], atriplet[i]));
          }
       }
-      IpData().TimingStats().LinearSystemScaling().End();
+      if( HaveIpData() )
+      {
+         IpData().TimingStats().LinearSystemScaling().End();
+      }
    }
 
    if( matrix_format_ != SparseSymLinearSolverInterface::Triplet_Format )
-- 
2.43.0

