From 7b4b0761316ba7896f96ca920a63208a386e01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 01/46] fix: Integrator::iop(in, out) computed the difference
 and dropped it

---
 include/opengm/operations/integrator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
-- 
2.43.0


From 5e6233ed34ef5d1d9156f4f523e7059ff9d95e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 02/46] fix: Logsumexp::op(in1, in2, out) read the old contents
 of out instead of in2

---
 include/opengm/operations/logsumexp.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..f8d9e9c 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -47,8 +47,8 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
+      T2 theMax = std::max(in1, in2);
+      T2 theMin = std::min(in1, in2);
       out = theMax + log(1 + exp(theMin - theMax));  // numerically better
    }
 
-- 
2.43.0


From 5ade278dcb86e8cdf5f687797bff8275d95ec616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 03/46] fix: Logsumexp::op of two neutral elements was NaN

---
 include/opengm/operations/logsumexp.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index f8d9e9c..06b8efa 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -39,7 +39,12 @@ struct Logsumexp
    {
       T2 theMax = std::max(in1, out);
       T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      if(theMin == neutral<T2>()) {
+         out = theMax; // log(exp(x) + 0); also avoids inf - inf
+      }
+      else {
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      }
    }
 
    /// operation (not in-place)
@@ -49,7 +54,12 @@ struct Logsumexp
    {
       T2 theMax = std::max(in1, in2);
       T2 theMin = std::min(in1, in2);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      if(theMin == neutral<T2>()) {
+         out = theMax; // log(exp(x) + 0); also avoids inf - inf
+      }
+      else {
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      }
    }
 
    /// inverse operation (in-place)
-- 
2.43.0


From 0d667d8a8167297a5d9dea0efe40e275c695d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 04/46] fix: StaticSimpleDiscreteSpace did not compile, did not
 count added variables and miscounted in assignDense

---
 .../graphicalmodel/space/static_simplediscretespace.hxx      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 793d08a..331088f 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -53,7 +53,6 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator end
 ) {
    numberOfVariables_=std::distance(begin, end);
-   numberOfVariables_=static_cast<L>(*begin);
    while(begin!=end) {
       if(LABELS!=static_cast<size_t>(*begin)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
@@ -80,6 +79,8 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::addVariable(
       throw opengm::RuntimeError("numberOfLabels==LABELS is violated \
       in StaticSimpleDiscreteSpace::addVariable ");
    }
+   ++numberOfVariables_;
+   return numberOfVariables_ - 1;
 }
 
 template<size_t LABELS,class I, class L>
@@ -93,7 +94,7 @@ inline typename StaticSimpleDiscreteSpace<LABELS,I, L>::LabelType
 StaticSimpleDiscreteSpace<LABELS,I, L>::numberOfLabels(
    const IndexType dimension
 ) const {
-   return static_cast<L> LABELS;
+   return static_cast<L>(LABELS);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From 97002b135fcb46c79478fc19f6d073b76b43b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 05/46] fix: ViewSpace::addVariable constructed its exception
 without throwing it

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..367ba62 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
-- 
2.43.0


From 4ef6b119521f9beb33e131868f8c32adb3e5cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 06/46] fix: ViewSpace::numberOfLabels was defined with another
 return type than declared

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 367ba62..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From e5fbfff087380fadf4b88637494a3a099e8afd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 07/46] fix: factorAdjacencyList took the position of a
 variable in the factor for the variable

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..5160054 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -927,8 +927,9 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
       for(size_t v=0 ;v<numberOfVariables(f); ++v) {
-         for(size_t ff=0;ff<numberOfFactors(v);++ff) {
-            const size_t fOfVar=factorOfVariable(v,ff);
+         const size_t variable = variableOfFactor(f, v);
+         for(size_t ff=0;ff<numberOfFactors(variable);++ff) {
+            const size_t fOfVar=factorOfVariable(variable,ff);
             if(f!=fOfVar) {
                out[f].insert(fOfVar);
             }
-- 
2.43.0


From ae9ae682686099649e7674c9ca3a7b77dade8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 08/46] fix: assigning a model with another function type list
 did not compile

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..497032e 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -194,6 +194,10 @@ template<size_t>
    friend struct detail_graphical_model::FunctionWrapper;
 template<size_t, size_t , bool>
    friend struct detail_graphical_model::FunctionWrapperExecutor;
+template<size_t, size_t>
+   friend struct detail_graphical_model::CopyFunctions;
+template<bool>
+   friend struct detail_graphical_model::MaybeCopyFunctionVector;
 template<typename GM>
    friend void opengm::hdf5::save(const GM&, const std::string&, const std::string&);
 template<typename GM>
-- 
2.43.0


From 2c07b4fa558a2f196a4726e92bbaac038857db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:42 +0000
Subject: [PATCH 09/46] fix: assigning a Factor left it attached to its old
 model

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index b2fa38b..c9b2e31 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -484,6 +484,7 @@ Factor<GRAPHICAL_MODEL>::operator=
 )
 {
    if(&src != this) {
+      gm_ = src.gm_;
       functionTypeId_ = src.functionTypeId_;
       functionIndex_ = src.functionIndex_;
       //variableIndices_ = src.variableIndices_;
-- 
2.43.0


From 730de98b2dbfb98e4b38a3e9ad7be5dbb8c377b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 10/46] fix: Factor::gmToFactorLabelsBegin did not compile

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index c9b2e31..e5de079 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -205,6 +205,7 @@ public:
     typename GmToFactorLabelIter<LABEL_ITER>::Iter
     gmToFactorLabelsBegin(LABEL_ITER gmLabelsBegin)const{
         typedef typename GmToFactorLabelIter<LABEL_ITER>::Accessor Accessor;
+        typedef typename GmToFactorLabelIter<LABEL_ITER>::Iter Iter;
         Accessor accessor(variableIndicesBegin(),variableIndicesEnd(), gmLabelsBegin);
         return Iter(accessor, 0);
     }
-- 
2.43.0


From b7d8e360dd2d52f227a7a6792c8e9eee9ed351d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 11/46] fix: isGeneralizedPotts read values of labels that the
 function does not have

---
 .../functions/function_properties_base.hxx    | 117 ++++--------------
 1 file changed, 21 insertions(+), 96 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..26d5ffa 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -397,107 +397,32 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
+   const size_t dimension=f.dimension();
+   if(dimension<2 || dimension>4) {
+      return false;
    }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
-            }
+   // the value may only depend on which of the labels are equal
+   bool known[64]={false};
+   VALUE value[64];
+   ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), dimension);
+   const size_t size=f.size();
+   for(size_t n=0;n<size;++n, ++shapeWalker) {
+      size_t equal=0;
+      for(size_t i=0, bit=1;i<dimension;++i) {
+         for(size_t j=i+1;j<dimension;++j, bit*=2) {
+            if(shapeWalker.coordinateTuple()[i]==shapeWalker.coordinateTuple()[j]) equal+=bit;
          }
       }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
-         }
+      const VALUE v=f(shapeWalker.coordinateTuple().begin());
+      if(!known[equal]) {
+         known[equal]=true;
+         value[equal]=v;
+      }
+      else if(value[equal]!=v) {
+         return false;
       }
-      return true;
-   }
-   else{
-      return false;
    }
+   return true;
 }
 
 template<class FUNCTION, class VALUE, class INDEX, class LABEL>
-- 
2.43.0


From dc49f3c03b27cdd4535b55b0140623786360391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 12/46] fix: minimum and maximum of a Potts function of one
 label combination included the value of no entry

---
 include/opengm/functions/potts.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..71fd989 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,6 +254,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
+   if(numberOfLabels1_ == 1 && numberOfLabels2_ == 1) {
+      return valueEqual_; // no pair of labels differs
+   }
    return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
@@ -261,6 +264,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
+   if(numberOfLabels1_ == 1 && numberOfLabels2_ == 1) {
+      return valueEqual_; // no pair of labels differs
+   }
    return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
@@ -292,6 +298,9 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
+   if(numberOfLabels1_ == 1 && numberOfLabels2_ == 1) {
+      return MinMaxFunctor<T>(valueEqual_, valueEqual_); // no pair of labels differs
+   }
    if(valueEqual_<valueNotEqual_) {
       return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
    }
-- 
2.43.0


From 310955c58261bda0a8c9edae6c0ee8a49f3dce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 13/46] fix: ViewFixVariablesFunction read the wrong labels
 when the fixed variables were not listed in ascending order

---
 .../functions/view_fix_variables_function.hxx | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/include/opengm/functions/view_fix_variables_function.hxx b/include/opengm/functions/view_fix_variables_function.hxx
index ddeda76..bccbf11 100644
--- a/include/opengm/functions/view_fix_variables_function.hxx
+++ b/include/opengm/functions/view_fix_variables_function.hxx
@@ -40,6 +40,8 @@ public:
    IndexType size()const;
 
 private:
+   void computeLookUp();
+
    FactorType const* factor_;
    std::vector<PositionAndLabel<IndexType, LabelType> > positionAndLabels_;
    mutable std::vector<LabelType> iteratorBuffer_;
@@ -86,15 +88,7 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
       }
    }
-   for(size_t ind=0; ind<lookUp_.size(); ++ind) {
-      size_t add=0;
-      for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-         if( positionAndLabels_[i].position_ <= ind+add) {
-            ++add;
-         }
-      }
-      lookUp_[ind]=ind+add;
-   }
+   computeLookUp();
 }
 
 /// constructor
@@ -121,14 +115,24 @@ ViewFixVariablesFunction<GM>::ViewFixVariablesFunction
          OPENGM_ASSERT(positionAndLabels_[i].label_ < factor_->numberOfLabels(positionAndLabels_[i].position_));
       }
    }
-   for(size_t ind=0; ind<lookUp_.size(); ++ind) {
-      size_t add = 0;
-      for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-         if( positionAndLabels_[i].position_ <= ind+add) {
-            ++add;
-         }
+   computeLookUp();
+}
+
+// positions of the variables that are not fixed (the fixed ones may be given in any order)
+template<class GM>
+inline void
+ViewFixVariablesFunction<GM>::computeLookUp()
+{
+   size_t ind = 0;
+   for(size_t i=0; ind<lookUp_.size(); ++i) {
+      bool fixed = false;
+      for(size_t j=0; j<positionAndLabels_.size(); ++j) {
+         fixed = fixed || positionAndLabels_[j].position_ == i;
+      }
+      if(!fixed) {
+         lookUp_[ind] = i;
+         ++ind;
       }
-      lookUp_[ind]=ind+add;
    }
 }
 
@@ -160,14 +164,8 @@ ViewFixVariablesFunction<GM>::shape
 ) const
 {
    OPENGM_ASSERT(factor_ != NULL);
-   size_t add = 0;
-   for(IndexType i=0; i<positionAndLabels_.size(); ++i) {
-      if( positionAndLabels_[i].position_ <= index+add) {
-         ++add;
-      }
-   }
-   OPENGM_ASSERT(index + add < factor_->numberOfVariables());
-   return factor_->numberOfLabels(index + add);
+   OPENGM_ASSERT(index < lookUp_.size());
+   return factor_->numberOfLabels(lookUp_[index]);
 }
 
 template<class GM>
-- 
2.43.0


From b3131ceeb60bd43ba54c9d18882aa1afbcd70694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 14/46] fix: DynamicSingleSiteFunction deleted an uninitialized
 or dangling pointer when an empty function was assigned to

---
 include/opengm/functions/singlesitefunction.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..89c5b92 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -141,7 +141,7 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +149,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -165,6 +165,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const DynamicSingleSiteFunction & other)
+      :  dataPointer_(NULL)
       {
          if(other.size_ != 0) {
             dataPointer_ = new T[other.size_];
@@ -193,6 +194,7 @@ public:
                   std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
                }
                else {
+                  dataPointer_ = NULL;
                   size_ = 0;
                }
             }
@@ -212,6 +214,7 @@ public:
                size_=size;
             }
             else {
+               dataPointer_ = NULL;
                size_ = 0;
             }
          }
@@ -227,6 +230,7 @@ public:
                std::fill(dataPointer_, dataPointer_+size_, value);
             }
             else {
+               dataPointer_ = NULL;
                size_=0;
             }
          }
-- 
2.43.0


From 69663be5226cb0c5ef13568c0d151c380f1df390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 15/46] fix: serialization of DynamicSingleSiteFunction did not
 write the announced size

---
 include/opengm/functions/singlesitefunction.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 89c5b92..bdc7293 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -344,6 +344,7 @@ public:
 
    template<class INDEX_OUTPUT_ITERATOR, class VALUE_OUTPUT_ITERATOR >
       static void serialize(const  DynamicSingleSiteFunction<T>  & f, INDEX_OUTPUT_ITERATOR ii, VALUE_OUTPUT_ITERATOR vi){
+      *ii=f.size();
       for(size_t i=0;i<f.size();++i){
          size_t c[]={i};
          *vi=f(c);
-- 
2.43.0


From ab13f646ac4fd1f37550e889132105b85193421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 16/46] fix: deserialization of LWeightedSumOfFunctions dropped
 everything it read

---
 .../opengm/functions/learnable/lweightedsum_of_functions.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..dfe6610 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -256,7 +256,10 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
          feat[i](j)=*valueInIterator;
          ++valueInIterator;
       }
-   }   
+   }
+   dst.shape_     = shape;
+   dst.weightIDs_ = parameterIDs;
+   dst.feat_      = feat;
 }
 
 } // namespace opengm
-- 
2.43.0


From 412ffec7c2b5351a700beea96a87f118cf16d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 17/46] fix: FoEFunction::setDefault stored the experts
 transposed

---
 include/opengm/functions/fieldofexperts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6c18af4..6a11642 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -101,7 +101,7 @@ public:
          alphas_[e] =  a_alpha[e]; 
          OPENGM_ASSERT(   alphas_[e] ==  a_alpha[e]);
          for(size_t i=0; i<4;++i){
-            experts_[e+i*3] = a_expert[e][i];
+            experts_[e*4+i] = a_expert[e][i];
          }
       }
       numLabels_= 256;
-- 
2.43.0


From f6a5f3e26ef4101d6e22b1f063263b9a1fa6a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 18/46] fix: ADSal and NesterovAcceleratedGradient: no visit
 after the visitor asked to stop

---
 .../opengm/inference/trws/smooth_nesterov.hxx  |  3 +++
 include/opengm/inference/trws/trws_adsal.hxx   | 18 ++++++++++++++----
 include/opengm/inference/visitors/visitors.hxx |  8 ++++++--
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index b135cf6..474c87c 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -434,9 +434,12 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 	}
 	//update smoothing
 	parent::_SelectOptimalBoundsAndLabeling();
+	if (!visitor.stopRequested())
+	{
 	   visitor();
 	   visitor.log("oracleCalls",(double)counter);
 	   visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+	}
 	visitor.end();
 
 	return NORMAL;
diff --git a/include/opengm/inference/trws/trws_adsal.hxx b/include/opengm/inference/trws/trws_adsal.hxx
index 65335e5..9a208e3 100644
--- a/include/opengm/inference/trws/trws_adsal.hxx
+++ b/include/opengm/inference/trws/trws_adsal.hxx
@@ -159,7 +159,14 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 
 	if (parent::_sumprodsolver.GetSmoothing()<=0.0)
 	{
-		if (parent::_Presolve(visitor, &counter)==CONVERGENCE)
+		const InferenceTermination presolveCode=parent::_Presolve(visitor, &counter);
+		if (visitor.stopRequested())
+		{
+			parent::_SelectOptimalBoundsAndLabeling();
+			visitor.end();
+			return NORMAL;
+		}
+		if (presolveCode==CONVERGENCE)
 		{
 			parent::_SelectOptimalBoundsAndLabeling();
 			visitor();
@@ -251,9 +258,12 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
    }
 
    parent::_SelectOptimalBoundsAndLabeling();
-   visitor();
-   visitor.log("oracleCalls",(double)counter);
-   visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+   if (!visitor.stopRequested())
+   {
+	   visitor();
+	   visitor.log("oracleCalls",(double)counter);
+	   visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+   }
    visitor.end();
 
 	return NORMAL;
diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index b5443b1..78c9d97 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -567,15 +567,19 @@ public:
 
 	VisitorWrapper(VISITOR* pvisitor,INFERENCE_TYPE* pinference)
 	:_pvisitor(pvisitor),
-	 _pinference(pinference){};
+	 _pinference(pinference),
+	 _returnFlag(VisitorReturnFlag::ContinueInf){};
 	void begin(){_pvisitor->begin(*_pinference);}
 	void end(){_pvisitor->end(*_pinference);}
-	size_t operator() (){return (*_pvisitor)(*_pinference);}
+	size_t operator() (){return _returnFlag=(*_pvisitor)(*_pinference);}
+	/// true after the visitor has asked the algorithm to stop
+	bool stopRequested() const {return _returnFlag!=VisitorReturnFlag::ContinueInf;}
 	void addLog(const std::string& logName){_pvisitor->addLog(logName);}
 	void log(const std::string& logName, double value){_pvisitor->log(logName,value);}
 private:
 	VISITOR* _pvisitor;
 	INFERENCE_TYPE* _pinference;
+	size_t _returnFlag;
 };
 
 
-- 
2.43.0


From d564c8593bc94308852417f80207a11e81d7b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 19/46] fix: NesterovAcceleratedGradient: end the visitor when
 the starting point is already optimal

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index 474c87c..7cc1dee 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -293,6 +293,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		parent::_fout << "NesterovAcceleratedGradient::_CheckStoppingCondition(): Precision attained! Problem solved!"<<std::endl;
 	#endif
 
+		 visitor.end();
 		 return NORMAL;
 	}
 
-- 
2.43.0


From b5731854848a2362824ffaf22ba7fde36db67589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 20/46] fix: SelfFusion: honour a stop requested while the
 wrapped algorithm begins

---
 include/opengm/inference/self_fusion.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..885108d 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -96,6 +96,9 @@ struct FusionVisitor{
     size_t operator()(
         INF  & inf
     ){
+        if(returnFlag_ != visitors::VisitorReturnFlag::ContinueInf){
+            return returnFlag_;
+        }
         return this->fuseVisit(inf);
     }
 
-- 
2.43.0


From fbc43ac107792ed6b80bb403f21ee652ddadf8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 21/46] fix: AStar: honour a stop requested when a
 configuration is complete

---
 include/opengm/inference/astar.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..5518cbe 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -331,7 +331,9 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            visitor(*this);
+            if(exitFlag==0) {
+               exitFlag = visitor(*this);
+            }
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From 1e7d973af275cfef062f55c719a72e8fcaf6b940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 22/46] fix: Gibbs: honour the visitor's stop request

---
 include/opengm/inference/gibbs.hxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..65058aa 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -273,11 +273,12 @@ InferenceTermination Gibbs<GM, ACC>::infer(
 ) {
    inInference_=true;
    visitor.begin(*this);
+   size_t visitorReturn = visitors::VisitorReturnFlag::ContinueInf;
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
    
    if(parameter_.useTemp_==false){
-      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
+      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_ && visitorReturn == visitors::VisitorReturnFlag::ContinueInf; ++iteration) {
          // select variable
          size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
@@ -304,7 +305,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               visitorReturn = visitor(*this);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -314,11 +315,11 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
+                  visitorReturn = visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  visitor(*this);
+                  visitorReturn = visitor(*this);
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
@@ -327,7 +328,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
       }
    }
    else {
-      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
+      for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_ && visitorReturn == visitors::VisitorReturnFlag::ContinueInf; ++iteration) {
          // select variable
          size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
@@ -354,7 +355,7 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               visitorReturn = visitor(*this);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -365,12 +366,12 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
+                  visitorReturn = visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
-                  visitor(*this);
+                  visitorReturn = visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-- 
2.43.0


From b33e74314ac529e0830c2b815a876873f7668bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 23/46] fix: CombiLP: end the visitor when the LP solution is
 already integral

---
 include/opengm/inference/combilp.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/combilp.hxx b/include/opengm/inference/combilp.hxx
index 639dbe9..80d4b75 100644
--- a/include/opengm/inference/combilp.hxx
+++ b/include/opengm/inference/combilp.hxx
@@ -555,7 +555,10 @@ namespace opengm{
 #endif
 
       if (std::count(initialmask.begin(),initialmask.end(),false)==0)
+      {
+         visitor.end(*this);
          return NORMAL;
+      }
 
       trws_base::transform_inplace(initialmask.begin(),initialmask.end(),std::logical_not<bool>());
 
-- 
2.43.0


From d6c1fc5944bbd49c5783dfd0633db97a66fa3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 24/46] fix: MQPBO: honour the visitor's stop request

---
 include/opengm/inference/mqpbo.hxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index 44ee5e0..1ccd9a3 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -842,15 +842,16 @@ namespace opengm {
       }
 
       visitor.begin(*this);
+      size_t visitorReturn = visitors::VisitorReturnFlag::ContinueInf;
 
       if(param_.useKovtunsMethod_){
          if(isPotts){
             //std::cout << "Use Kovtuns method for potts"<<std::endl;
-            for(LabelType l=0; l<maxNumberOfLabels; ++l) {
+            for(LabelType l=0; l<maxNumberOfLabels && visitorReturn==visitors::VisitorReturnFlag::ContinueInf; ++l) {
                testQuess(l);
                double xoptimality = optimality(); 
                double xoptimalityV = optimalityV();
-               visitor(*this);
+               visitorReturn = visitor(*this);
                visitor.log("optimality",xoptimality);
                visitor.log("optimalityV",xoptimalityV);
 
@@ -878,11 +879,11 @@ namespace opengm {
 
       if(param_.rounds_>0){
          std::cout << "Start "<<param_.rounds_ << " of multilabel QPBO for different permutations" <<std::endl;
-         for(size_t rr=0; rr<param_.rounds_;++rr){
+         for(size_t rr=0; rr<param_.rounds_ && visitorReturn==visitors::VisitorReturnFlag::ContinueInf;++rr){
             testPermutation(param_.permutationType_);
             double xoptimality = optimality();
             double xoptimalityV = optimalityV();
-            visitor(*this);
+            visitorReturn = visitor(*this);
             visitor.log("optimality",xoptimality);
             visitor.log("optimalityV",xoptimalityV);
 
-- 
2.43.0


From 59c0fba59a8556fa74264d0402d063702cc76847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 25/46] fix: DMC: end the visitor when all variables fall into
 one component

---
 include/opengm/inference/dmc.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/dmc.hxx b/include/opengm/inference/dmc.hxx
index 80b6383..a941bdb 100644
--- a/include/opengm/inference/dmc.hxx
+++ b/include/opengm/inference/dmc.hxx
@@ -282,9 +282,8 @@ InferenceTermination DMC<GM,INF>::infer
             offset += nSubVar;
         }
         value_ = gm_.evaluate(arg_);
-        visitor.end(*this);
-
     }
+    visitor.end(*this);
     return NORMAL;
 }
 
-- 
2.43.0


From ae3798547543fe6b8456769dd56f7390d94ecf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 26/46] fix: loadHyperslab: close the dataset and its type when
 the value types differ

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index fb8ab88..94bcf11 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -654,6 +654,8 @@ void loadHyperslab(
     hid_t datatype = H5Dget_type(dataset);
     
     if(!H5Tequal(datatype, hdf5Type<T>())) {
+        H5Tclose(datatype);
+        H5Dclose(dataset);
         throw std::runtime_error("data type of stored hdf5 dataset and passed array do not match in loadHyperslab");
     }
     
-- 
2.43.0


From 79f913db93b357718c06754572e5876eaa49270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 27/46] fix: createFile, openFile: close the file access
 property list

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 94bcf11..b618731 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -830,6 +830,9 @@ createFile
     }
 
     hid_t fileHandle = H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, version);
+    if(hdf5version == LATEST_HDF5_VERSION) {
+        H5Pclose(version);
+    }
     if(fileHandle < 0) {
         throw std::runtime_error("Could not create HDF5 file: " + filename);
     }
@@ -867,6 +870,9 @@ openFile
     }
 
     hid_t fileHandle = H5Fopen(filename.c_str(), access, version);
+    if(hdf5version == LATEST_HDF5_VERSION) {
+        H5Pclose(version);
+    }
     if(fileHandle < 0) {
         throw std::runtime_error("Could not open HDF5 file: " + filename);
     }
-- 
2.43.0


From cd37b499ed1a686166004b106e0b0ad99a3b3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 28/46] fix: saving and loading models and reparametrisations:
 close file and groups when an exception leaves

---
 .../datastructures/marray/marray_hdf5.hxx     | 24 +++++++++++++++++++
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 12 +++++-----
 .../auxiliary/lp_reparametrization_hdf5.hxx   | 10 ++++----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index b618731..6af0b9e 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -954,6 +954,30 @@ closeGroup
     H5Gclose(handle);
 }
 
+/// Closes an HDF5 file at the end of the scope, also if an exception leaves it.
+///
+class FileGuard {
+public:
+    explicit FileGuard(const hid_t& handle) : handle_(handle) {}
+    ~FileGuard() { closeFile(handle_); }
+private:
+    FileGuard(const FileGuard&);
+    FileGuard& operator=(const FileGuard&);
+    hid_t handle_;
+};
+
+/// Closes an HDF5 group at the end of the scope, also if an exception leaves it.
+///
+class GroupGuard {
+public:
+    explicit GroupGuard(const hid_t& handle) : handle_(handle) {}
+    ~GroupGuard() { closeGroup(handle_); }
+private:
+    GroupGuard(const GroupGuard&);
+    GroupGuard& operator=(const GroupGuard&);
+    hid_t handle_;
+};
+
 } // namespace hdf5
 } // namespace marray
 
diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..a0d5a6e 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -101,6 +101,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
          typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX;
          ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
          hid_t group = marray::hdf5::createGroup(handle, ss.str());
+         marray::hdf5::GroupGuard groupGuard(group);
 
          // loop over all functions of this type
          size_t indexCounter = 0;
@@ -166,7 +167,6 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                marray::hdf5::save(group, std::string("values"), tmpValueVector);
             }
          }
-         marray::hdf5::closeGroup(group);
       }
 
       // save functions of the next type in the typelist
@@ -205,6 +205,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
             typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX ;
             ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
             hid_t group = marray::hdf5::openGroup(handle, ss.str());
+            marray::hdf5::GroupGuard groupGuard(group);
             marray::Vector<typename GM::ValueType> serializationValues;
             marray::Vector<opengm::UInt64Type> serializationIndicies;
             {
@@ -279,7 +280,6 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                valueIter+=FunctionSerialization<TypeAtIX>::valueSequenceSize(
                   meta::FieldAccess::template byIndex<IX> (gm.functionDataField_).functionData_.functions_[i]);
             }
-            marray::hdf5::closeGroup(group);
          }
       }
 
@@ -339,7 +339,9 @@ void save
       throw opengm::RuntimeError( std::string("ValueType  has no support for hdf5 export") );
    }
    hid_t file = marray::hdf5::createFile(filepath, marray::hdf5::DEFAULT_HDF5_VERSION);
+   marray::hdf5::FileGuard fileGuard(file);
    hid_t group = marray::hdf5::createGroup(file, datasetName);
+   marray::hdf5::GroupGuard groupGuard(group);
    std::vector<UInt64Type> serializationIndicies;
    opengm::UInt64Type storeValueTypeAs;
    // float
@@ -422,8 +424,6 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
 }
 
 template<class GM>
@@ -437,7 +437,9 @@ void load
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
    hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
+   marray::hdf5::FileGuard fileGuard(file);
    hid_t group =marray::hdf5::openGroup(file, datasetName);
+   marray::hdf5::GroupGuard groupGuard(group);
    marray::Vector<opengm::UInt64Type> serializationIndicies;
    std::vector<opengm::UInt64Type> numberOfFunctions;
    std::vector<opengm::UInt64Type> functionIndexLookup;
@@ -550,8 +552,6 @@ void load
       }
    }
 
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
    gm.variableFactorAdjaceny_.resize(gm.numberOfVariables());
    // adjacenies
 
diff --git a/include/opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx b/include/opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx
index 149b2f9..21be146 100644
--- a/include/opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx
+++ b/include/opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx
@@ -17,23 +17,21 @@ namespace hdf5 {
 template<class GM>
 void save(const LPReparametrisationStorage<GM>& repa,const std::string& filename,const std::string& modelname)
 {
-		hid_t file = H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-	    OPENGM_ASSERT(file >= 0);
+		hid_t file = marray::hdf5::createFile(filename);
+		marray::hdf5::FileGuard fileGuard(file);
 		marray::Vector<typename GM::ValueType> marr;
 		repa.serialize(&marr);
 		marray::hdf5::save(file,modelname.c_str(),marr);
-	    H5Fclose(file);
 }
 
 template<class GM>
 void load(LPReparametrisationStorage<GM>* prepa, const std::string& filename, const std::string& modelname)
 {
-	hid_t file = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
-	OPENGM_ASSERT(file>=0);
+	hid_t file = marray::hdf5::openFile(filename);
+	marray::hdf5::FileGuard fileGuard(file);
 	marray::Vector<typename GM::ValueType> marr;
 	marray::hdf5::load(file,modelname.c_str(),marr);
 	prepa->deserialize(marr);
-	H5Fclose(file);
 };
 }
 }
-- 
2.43.0


From 6761179b59c277397f9bc16cc6b32253371acf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 29/46] fix: MQPBO: random permutations do not depend on the
 clock

---
 include/opengm/inference/mqpbo.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/mqpbo.hxx b/include/opengm/inference/mqpbo.hxx
index 1ccd9a3..2f2d452 100644
--- a/include/opengm/inference/mqpbo.hxx
+++ b/include/opengm/inference/mqpbo.hxx
@@ -129,6 +129,7 @@ namespace opengm {
       size_t numEdges_;
 
       GraphValueType scale;
+      unsigned int permutationSeed_; // random permutations are the same in every run
 
    };
 //! [class mqpbo]
@@ -142,7 +143,8 @@ namespace opengm {
    )
    :  gm_(gm),    
       param_(parameter),
-      scale(1)
+      scale(1),
+      permutationSeed_(0)
    {
       for(size_t j = 0; j < gm_.numberOfFactors(); ++j) {
          if(gm_[j].numberOfVariables() > 2) {
@@ -437,7 +439,7 @@ namespace opengm {
          }
       }
       else if(permutationType==RANDOM){ 
-         srand ( unsigned ( time (NULL) ) );
+         srand ( permutationSeed_++ );
          for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
             LabelType numStates = gm_.numberOfLabels(var);
             //IDENTYTY PERMUTATION
-- 
2.43.0


From 578ae975c6191c427be6d75606c4d7c5c7929e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 30/46] fix: arg: solution index zero is an error

---
 include/opengm/inference/alphabetaswap.hxx        | 2 +-
 include/opengm/inference/alphaexpansion.hxx       | 2 +-
 include/opengm/inference/alphaexpansionfusion.hxx | 2 +-
 include/opengm/inference/dynamicprogramming.hxx   | 2 +-
 include/opengm/inference/external/ad3.hxx         | 2 +-
 include/opengm/inference/external/gco.hxx         | 2 +-
 include/opengm/inference/external/mplp.hxx        | 2 +-
 include/opengm/inference/external/mrflib.hxx      | 2 +-
 include/opengm/inference/external/qpbo.hxx        | 4 ++--
 include/opengm/inference/external/srmp.hxx        | 2 +-
 include/opengm/inference/graphcut.hxx             | 2 +-
 include/opengm/inference/hqpbo.hxx                | 2 +-
 include/opengm/inference/lazyflipper.hxx          | 2 +-
 include/opengm/inference/qpbo.hxx                 | 2 +-
 14 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..cb8e0ef 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -307,7 +307,7 @@ AlphaBetaSwap<GM, INF>::infer
 template<class GM, class INF>
 inline InferenceTermination
 AlphaBetaSwap<GM, INF>::arg(std::vector<LabelType>& arg, const size_t n) const {
-   if (n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    } else {
       OPENGM_ASSERT(label_.size() == gm_.numberOfVariables());
diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..31a0689 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -406,7 +406,7 @@ AlphaExpansion<GM, INF>::arg
    const size_t n
 ) const
 {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
diff --git a/include/opengm/inference/alphaexpansionfusion.hxx b/include/opengm/inference/alphaexpansionfusion.hxx
index 9c26741..c3f31d9 100644
--- a/include/opengm/inference/alphaexpansionfusion.hxx
+++ b/include/opengm/inference/alphaexpansionfusion.hxx
@@ -503,7 +503,7 @@ AlphaExpansionFusion<GM, ACC>::arg
    const size_t n
 ) const
 {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..29c68a0 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -265,7 +265,7 @@ namespace opengm {
   std::vector<LabelType>& arg, 
   const size_t n
   ) const {
-    if(n > 1) {
+    if(n != 1) {
        arg.assign(gm_.numberOfVariables(), 0);
       return UNKNOWN;
     } 
diff --git a/include/opengm/inference/external/ad3.hxx b/include/opengm/inference/external/ad3.hxx
index 8ccaaba..962a585 100644
--- a/include/opengm/inference/external/ad3.hxx
+++ b/include/opengm/inference/external/ad3.hxx
@@ -617,7 +617,7 @@ namespace opengm {
       inline InferenceTermination
       AD3Inf<GM,ACC>
       ::arg(std::vector<LabelType>& arg, const size_t& n) const {
-         if(n > 1) {
+         if(n != 1) {
             return UNKNOWN;
          }
          else {
diff --git a/include/opengm/inference/external/gco.hxx b/include/opengm/inference/external/gco.hxx
index 95af280..8873767 100644
--- a/include/opengm/inference/external/gco.hxx
+++ b/include/opengm/inference/external/gco.hxx
@@ -333,7 +333,7 @@ namespace opengm {
 
       template<class GM>
       inline InferenceTermination GCOLIB<GM>::arg(std::vector<LabelType>& arg, const size_t& n) const {
-         if(n > 1) {
+         if(n != 1) {
             return UNKNOWN;
          }
          else {
diff --git a/include/opengm/inference/external/mplp.hxx b/include/opengm/inference/external/mplp.hxx
index d2bcadf..e894674 100644
--- a/include/opengm/inference/external/mplp.hxx
+++ b/include/opengm/inference/external/mplp.hxx
@@ -425,7 +425,7 @@ inline InferenceTermination MPLP<GM>::infer(VISITOR & visitor) {
 
 template<class GM>
 inline InferenceTermination MPLP<GM>::arg(std::vector<LabelType>& arg, const size_t& n) const {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
diff --git a/include/opengm/inference/external/mrflib.hxx b/include/opengm/inference/external/mrflib.hxx
index 911e985..adcd2a2 100644
--- a/include/opengm/inference/external/mrflib.hxx
+++ b/include/opengm/inference/external/mrflib.hxx
@@ -344,7 +344,7 @@ namespace opengm {
 
       template<class GM>
       inline InferenceTermination MRFLIB<GM>::arg(std::vector<LabelType>& arg, const size_t& n) const {
-         if(n > 1) {
+         if(n != 1) {
             return UNKNOWN;
          }
          else { 
diff --git a/include/opengm/inference/external/qpbo.hxx b/include/opengm/inference/external/qpbo.hxx
index 7148bb9..6b0b78c 100644
--- a/include/opengm/inference/external/qpbo.hxx
+++ b/include/opengm/inference/external/qpbo.hxx
@@ -286,7 +286,7 @@ namespace opengm {
       inline InferenceTermination
       QPBO<GM>
       ::arg(std::vector<LabelType>& arg, const size_t& n) const {
-         if(n > 1) {
+         if(n != 1) {
             return UNKNOWN;
          }
          else {
@@ -303,7 +303,7 @@ namespace opengm {
       inline InferenceTermination
       QPBO<GM>
       ::arg(std::vector<TriBool>& arg, const size_t& n) const {
-         if(n > 1) {
+         if(n != 1) {
             return UNKNOWN;
          }
          else {
diff --git a/include/opengm/inference/external/srmp.hxx b/include/opengm/inference/external/srmp.hxx
index b6bdbfc..8df2857 100644
--- a/include/opengm/inference/external/srmp.hxx
+++ b/include/opengm/inference/external/srmp.hxx
@@ -199,7 +199,7 @@ inline InferenceTermination SRMP<GM>::infer(VISITOR & visitor) {
 
 template<class GM>
 inline InferenceTermination SRMP<GM>::arg(std::vector<LabelType>& arg, const size_t& n) const {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..1380149 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -394,7 +394,7 @@ inline InferenceTermination GraphCut<GM, ACC, MINSTCUT>::arg
       arg.resize(numVariables_,0);
       return UNKNOWN;
    }
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    } 
    else {
diff --git a/include/opengm/inference/hqpbo.hxx b/include/opengm/inference/hqpbo.hxx
index a621ef0..a11e700 100644
--- a/include/opengm/inference/hqpbo.hxx
+++ b/include/opengm/inference/hqpbo.hxx
@@ -226,7 +226,7 @@ HQPBO<GM,ACC>::arg
    const size_t& n
    ) const
 {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..8d9752d 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -978,7 +978,7 @@ LazyFlipper<GM, ACC>::arg(
    const size_t n
 ) const
 {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..efffd1a 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -147,7 +147,7 @@ QPBO<GM,MIN_ST_CUT>::arg
    const size_t& n
    ) const
 {
-   if(n > 1) {
+   if(n != 1) {
       return UNKNOWN;
    }
    else {
-- 
2.43.0


From e9083f608c7fee084f3da958cc6e8e0585a787ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 31/46] fix: arg of A*, self fusion, CombiLP, TRWS, ADSal,
 Nesterov: an unsupported solution index is an error

---
 include/opengm/inference/astar.hxx                   | 2 +-
 include/opengm/inference/combilp.hxx                 | 8 ++++++--
 include/opengm/inference/self_fusion.hxx             | 3 +++
 include/opengm/inference/trws/smoothing_strategy.hxx | 6 ++++--
 include/opengm/inference/trws/trws_trws.hxx          | 4 +++-
 5 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 5518cbe..e968393 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -361,7 +361,7 @@ namespace opengm {
    InferenceTermination AStar<GM, ACC>
    ::arg(ConfVec& conf, const size_t n)const
    {
-      if(n>optConf_.size()) {
+      if(n==0 || n>optConf_.size()) {
          conf.resize(gm_.numberOfVariables(),0);
          return UNKNOWN;
       }
diff --git a/include/opengm/inference/combilp.hxx b/include/opengm/inference/combilp.hxx
index 80d4b75..94ac044 100644
--- a/include/opengm/inference/combilp.hxx
+++ b/include/opengm/inference/combilp.hxx
@@ -160,8 +160,10 @@ namespace opengm{
 
          template <class VISITORWRAPPER> InferenceTermination infer(MaskType& mask,const std::vector<LabelType>& lp_labeling,VISITORWRAPPER& vis);
 
-         InferenceTermination arg(std::vector<LabelType>& out, const size_t = 1) const
+         InferenceTermination arg(std::vector<LabelType>& out, const size_t n = 1) const
             {
+               if(n != 1)
+                  return opengm::UNKNOWN;
                out = _labeling;
                return opengm::NORMAL;
             }
@@ -451,8 +453,10 @@ namespace opengm{
 
       template<class VISITOR> InferenceTermination infer(VISITOR & visitor);
 
-      InferenceTermination arg(std::vector<LabelType>& out, const size_t = 1) const
+      InferenceTermination arg(std::vector<LabelType>& out, const size_t n = 1) const
          {
+            if(n != 1)
+               return opengm::UNKNOWN;
             out = _labeling;
             return opengm::NORMAL;
          }
diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 885108d..5496db3 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -483,6 +483,9 @@ SelfFusion<INFERENCE>::arg
       const size_t N
 ) const
 {
+    if(N!=1){
+        return UNKNOWN;
+    }
     x.resize(gm_.numberOfVariables());
     for(IndexType vi=0;vi<gm_.numberOfVariables();++vi){
         x[vi]=argBest_[vi];
diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 4ce5e8d..e1649e1 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -612,8 +612,10 @@ public:
 
 	  virtual ~SmoothingBasedInference(){delete psmoothingStrategy;  }
 
-	  InferenceTermination arg(std::vector<LabelType>& out, const size_t = 1) const
-	  {out = _bestIntegerLabeling;
+	  InferenceTermination arg(std::vector<LabelType>& out, const size_t n = 1) const
+	  {if(n != 1)
+	     return opengm::UNKNOWN;
+	   out = _bestIntegerLabeling;
 	   return opengm::NORMAL;}
 	  const GraphicalModelType& graphicalModel() const { return _storage.masterModel(); }
 
diff --git a/include/opengm/inference/trws/trws_trws.hxx b/include/opengm/inference/trws/trws_trws.hxx
index da70336..63429eb 100644
--- a/include/opengm/inference/trws/trws_trws.hxx
+++ b/include/opengm/inference/trws/trws_trws.hxx
@@ -140,8 +140,10 @@ public:
 	  return NORMAL;
   };
 
-  InferenceTermination arg(std::vector<LabelType>& out, const size_t = 1) const
+  InferenceTermination arg(std::vector<LabelType>& out, const size_t n = 1) const
 	  {
+	  if(n != 1)
+		  return opengm::UNKNOWN;
 	  out = _solver.arg();
 	  return opengm::NORMAL;}
   virtual ValueType bound() const{return _solver.bound();}
-- 
2.43.0


From 80287ac9e177dfbe4b54780e1d57e34fb294697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 32/46] fix: FastSequence: copies and assignments keep capacity
 and storage consistent, push_back of an own element

---
 .../opengm/datastructures/fast_sequence.hxx   | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..82ad732 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK?other.size_:MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -152,23 +152,16 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
       // capacity_=other.capacity_;
       // OPENGM_ASSERT(size_<=capacity_);
       // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
+      if(other.size_>capacity_) {
+         T * tmp=new T[other.size_];
          // delete old sequence
-         if(size_>MAX_STACK) {
+         if(capacity_>MAX_STACK) {
             delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
          }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         pointerToSequence_=tmp;
+         capacity_=other.size_;
       }
+      size_=other.size_;
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
@@ -250,13 +243,16 @@ FastSequence<T, MAX_STACK>::push_back
    if(capacity_ == size_) {
       T * tmp=new T[capacity_ * 2];
       std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
+      tmp[size_] = value; // value can be an element of this sequence
       if(capacity_ > MAX_STACK) {
          delete[] pointerToSequence_;
       }
       capacity_ *= 2;
       pointerToSequence_ = tmp;
    }
-   pointerToSequence_[size_]=value;
+   else {
+      pointerToSequence_[size_]=value;
+   }
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-- 
2.43.0


From d25e74b0918c9aa1b4a450822adc3c8fcf971f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 33/46] fix: BufferVector: reserve keeps the size, empty
 vectors own no storage, no leak when growing, push_back of an own element

---
 .../opengm/datastructures/buffer_vector.hxx   | 57 +++++++++----------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..5d36fbd 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,7 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,8 +90,11 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+      }
       std::fill(data_,data_+size_,value);
    }
    
@@ -103,7 +107,8 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(NULL)
    {
       if(size_!=0) {
          data_ = new T[size_];
@@ -165,7 +170,7 @@ namespace opengm{
    template<class T>
    inline T const *
    BufferVector<T>::begin() const{
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_;
    }
    
@@ -173,7 +178,7 @@ namespace opengm{
    template<class T>
    inline T const *
    BufferVector<T>::end() const{
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_ + size_;
    }
    
@@ -181,7 +186,7 @@ namespace opengm{
    template<class T>
    inline T * const
    BufferVector<T>::begin() {
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_;
    }
    
@@ -189,7 +194,7 @@ namespace opengm{
    template<class T>
    inline T * const
    BufferVector<T>::end() {
-      OPENGM_ASSERT(data_!=NULL);
+      OPENGM_ASSERT(data_!=NULL || size_==0);
       return data_ + size_;
    }
    
@@ -231,17 +236,21 @@ namespace opengm{
          if(size_!=0) {
             T * tmp=new T[capacity_*2];
             std::copy(data_,data_+size_,tmp);
+            tmp[size_]=value; // value can be an element of this vector
             delete[] data_;
             capacity_*=2;
             data_=tmp;
          }
          else{
             T * tmp=new T[2];
+            tmp[size_]=value;
             capacity_=2;
             data_=tmp;
          }
       }
-      data_[size_]=value;
+      else{
+         data_[size_]=value;
+      }
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
@@ -256,17 +265,11 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            capacity_=size;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-            capacity_=size;
-         }
+         T * tmp=new T[size];
+         std::copy(data_,data_+size_,tmp);
+         delete[] data_;
+         capacity_=size;
+         data_=tmp;
       }
       size_=size;
       OPENGM_ASSERT(size_<=capacity_);
@@ -282,16 +285,10 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-         }
-         size_=size;
+         T * tmp=new T[size];
+         std::copy(data_,data_+size_,tmp);
+         delete[] data_;
+         data_=tmp;
          capacity_=size;
       }
       //size_=size;
-- 
2.43.0


From 32add2564fc9ff91e796ef0d643e8ef4bdbc09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 34/46] fix: RandomAccessSet: swap both comparators, insert
 with hint and reverse iterators compile

---
 .../opengm/datastructures/randomaccessset.hxx | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..00f18a4 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -51,6 +51,8 @@ public:
    typedef typename VectorType::const_pointer const_pointer;
    /// const reverse iterator
    typedef typename VectorType::const_reverse_iterator	const_reverse_iterator;
+   /// reverse iterator type
+   typedef typename VectorType::reverse_iterator	reverse_iterator;
 
    // memeber functions:
    // constructor
@@ -67,13 +69,13 @@ public:
    // iterators
    const_iterator begin() const;
    const_iterator end() const;
-   const_iterator rbegin() const;
-   const_iterator rend() const;
+   const_reverse_iterator rbegin() const;
+   const_reverse_iterator rend() const;
 
    iterator begin();
    iterator end();
-   iterator rbegin();
-   iterator rend();
+   reverse_iterator rbegin();
+   reverse_iterator rend();
    bool empty() const;
    size_type size() const;
    size_type max_size() const;
@@ -232,7 +234,7 @@ RandomAccessSet<Key,Compare,Alloc>::end() const
 /// reverse const begin iterator
 /// \returns reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 {
    return vector_.rbegin();
@@ -241,7 +243,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 /// reverse const end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend() const
 {
     return vector_.rend();
@@ -268,7 +270,7 @@ RandomAccessSet<Key,Compare,Alloc>::end()
 /// reverse  begin iterator
 /// \param reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin()
 {
    return vector_.rbegin();
@@ -277,7 +279,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin()
 /// reverse end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend()
 {
     return vector_.rend();
@@ -363,8 +365,8 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
+   if((position == begin() || compare_(*(position-1),value))
+   && (position == end() || compare_(value, *position))) {
        return vector_.insert(position, value);
    }
    return insert(value).first;
@@ -424,7 +426,7 @@ RandomAccessSet<Key,Compare,Alloc>::swap
 )
 {
    vector_.swap(rhs.vector_);
-   compare_=rhs.compare_;
+   std::swap(compare_,rhs.compare_);
 }
 
 /// clear the set
-- 
2.43.0


From bfd9926c7c42b6a87e3b587837e5eb792a28a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 35/46] fix: disjoint_set: copies are independent and the
 storage is released

---
 include/opengm/utilities/disjoint-set.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/disjoint-set.hxx b/include/opengm/utilities/disjoint-set.hxx
index 84998e7..678d331 100644
--- a/include/opengm/utilities/disjoint-set.hxx
+++ b/include/opengm/utilities/disjoint-set.hxx
@@ -30,7 +30,7 @@ namespace opengm{
     
   private:
     
-    elem *elements_;
+    std::vector<elem> elements_;
     T numberOfElements_;
     T numberOfSets_;
     
@@ -46,7 +46,7 @@ namespace opengm{
   template<class T>
   disjoint_set<T>::disjoint_set(T numberOfElements){
     
-    elements_ = new elem[numberOfElements];
+    elements_.resize(numberOfElements);
     numberOfElements_ = numberOfElements;
     numberOfSets_ = numberOfElements;
     for(T i=0;i < numberOfElements;++i){
-- 
2.43.0


From 3ceecc44b69d01ab5be232de0a5bf8972e84134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 36/46] fix: FactorVariablesAccessor: non-const access returns
 the variable index

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index 6d9b45e..a398d26 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -162,7 +162,7 @@ namespace opengm {
       IndexType size() const 
          { return factor_ == 0 ? 0 : factor_->numberOfVariables(); }
       reference operator[](const size_t j) 
-         { return factor_->numberOfLabels(j); }
+         { return factor_->variableIndex(j); }
       const value_type operator[](const size_t j) const 
          { return factor_->variableIndex(j); }
       bool operator==(const FactorVariablesAccessor<FACTOR> & other) const 
-- 
2.43.0


From bd69408fc9a11e73f69c16060ad2ac7baedcd261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 37/46] fix: AccessorIterator: const access does not return a
 reference to a temporary, constant and mutable iterators compare

---
 include/opengm/utilities/accessor_iterator.hxx | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..748e2cf 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,13 @@ public:
       >::type,
       value_type&
    >::type reference;
+   // by value for fundamental types because accessors can compute their values
+   typedef typename meta::If
+   <
+      meta::IsFundamental<value_type>::value,
+      const value_type,
+      const value_type&
+   >::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +103,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -113,6 +120,8 @@ public:
       size_t operator-(const AccessorIterator<A, isConstLocal>&) const;
 
 private:
+   template<class, bool> friend class AccessorIterator; // to compare constant with mutable iterators
+
    void testInvariant() const;
 
    Accessor accessor_;
@@ -225,7 +234,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +250,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From 70a794e07bbe8b6bd589f745bfd5283fed8a4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 38/46] fix: marray Iterator: decrementing the end iterator of
 a non-simple view reaches the last entry

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..abed44d 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4384,7 +4384,7 @@ Iterator<T, isConst, A>::operator--()
         --pointer_;
     }
     else {
-        if(index_ == view_->size()) {
+        if(index_ + 1 == view_->size()) {
             // decrement from end iterator
             --pointer_;
             if(view_->coordinateOrder() == LastMajorOrder) {
-- 
2.43.0


From 7b19b56d4f345f42081fbe66db07d90df0b28599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 39/46] fix: marray Iterator: adding a negative or subtracting
 a positive distance are the same, also from the end

---
 include/opengm/datastructures/marray/marray.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index abed44d..e5c67f6 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4254,6 +4254,9 @@ Iterator<T, isConst, A>::operator+=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) { // also from the end
+        return *this -= -x;
+    }
     if(index_ < view_->size()) { // view initialized and iterator not at the end
         if(index_ + x < view_->size()) {
             index_ += x;
@@ -4295,6 +4298,9 @@ Iterator<T, isConst, A>::operator-=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) {
+        return *this += -x;
+    }
     marray_detail::Assert(MARRAY_NO_ARG_TEST || static_cast<difference_type>(index_) >= x);
     index_ -= x;
     if(view_->isSimple()) {
-- 
2.43.0


From dd138d5e5e437f5ce63f87133da59470c39cc0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 40/46] fix: accumulating a function without variables gives
 its value, not the accumulation of zero

---
 include/opengm/functions/operations/accumulator.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/operations/accumulator.hxx b/include/opengm/functions/operations/accumulator.hxx
index 2e12443..3bcb31b 100644
--- a/include/opengm/functions/operations/accumulator.hxx
+++ b/include/opengm/functions/operations/accumulator.hxx
@@ -198,8 +198,7 @@ void AccumulateSomeImpl<A, B, ACC>::op
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
       size_t indexSequenceToScalar[] = {0};
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
+      acc(a(indexSequenceToScalar));
       size_t shapeToScalarArray[] = {0};
       b.resize(shapeToScalarArray, shapeToScalarArray);
       b(indexSequenceToScalar) = acc.value();
@@ -290,10 +289,9 @@ void AccumulateSomeInplaceImpl<A, ACC>::op
    }
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
-      a.assign();
-      a(0) = acc.value();
+      size_t indexSequenceToScalar[] = {0};
+      acc(a(indexSequenceToScalar));
+      a(indexSequenceToScalar) = acc.value();
    }
    OPENGM_ASSERT(a.dimension() == viA.size());
    OPENGM_ASSERT(a.dimension() != 0 || (a.dimension() == 0 && a.size() == 1));
-- 
2.43.0


From a5dd40b2aa52e5e7571533221302d459f859039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 41/46] fix: operators on functions without variables give a
 scalar function, not an empty one-dimensional array

---
 include/opengm/functions/operations/operator.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/opengm/functions/operations/operator.hxx b/include/opengm/functions/operations/operator.hxx
index 56cda43..60e0107 100644
--- a/include/opengm/functions/operations/operator.hxx
+++ b/include/opengm/functions/operations/operator.hxx
@@ -182,7 +182,6 @@ void BinaryOperationImpl<A, B, C, OP>::op
    }
    else if(dimA == 0 && dimB == 0) {
       const size_t scalarIndex=0;
-      c.resize(&scalarIndex, &scalarIndex+1);
       c(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
    }
    else if(dimA == 0) {
@@ -252,7 +251,6 @@ void BinaryOperationInplaceImpl<A, B, OP>::op
       }
       else {
          const size_t scalarIndex=0;
-         a.resize(&scalarIndex, &scalarIndex+1);
          a(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
          via.assign(viaNew.begin(),viaNew.end());
       }
@@ -299,7 +297,7 @@ void UnaryOperationImpl<A, B, OP>::op
    }
    else {
       const size_t scalarIndex=0;
-      b.resize(&scalarIndex, &scalarIndex+1);
+      b.resize(&scalarIndex, &scalarIndex);
       b(&scalarIndex) = op(a(&scalarIndex));
    }
 }
-- 
2.43.0


From e04aa20b77e4fcabed39cc39510c225d39786058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 42/46] fix: Accumulation keeps a state also if no value is
 better than the neutral element

---
 include/opengm/utilities/accumulation.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..bd4956b 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -110,7 +110,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const ValueType& value,
    const opengm::FastSequence<size_t>& state
 ) {
-   if(Accumulator::bop(value, value_)) {
+   if(state_.size() == 0 || Accumulator::bop(value, value_)) {
       state_ = state;
       OPENGM_ASSERT(state_.size()==state.size());
    }
@@ -127,7 +127,7 @@ Accumulation<Value, State, Accumulator>::operator()
    const CONTAINER & state
 )
 {
-   if(Accumulator::bop(value, value_)) {
+   if(state_.size() == 0 || Accumulator::bop(value, value_)) {
       state_.resize(state.size());
       for(size_t i=0;i<state.size();++i) {
          state_[i] = state[i];
-- 
2.43.0


From a3e0f93f6df007228ebe61347243c9a0cd859ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 43/46] fix: WeightConstraints keeps the bounds of its
 constraints and returns their sizes

---
 include/opengm/graphicalmodel/weights.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/weights.hxx b/include/opengm/graphicalmodel/weights.hxx
index ee3ed2a..f833bce 100644
--- a/include/opengm/graphicalmodel/weights.hxx
+++ b/include/opengm/graphicalmodel/weights.hxx
@@ -214,7 +214,7 @@ namespace learning{
         }
 
         const std::vector<size_t> & constraintSizes()const{
-            return cLowerBounds_;
+            return cSize_;
         }
         const std::vector<T> & constraintLowerBounds()const{
             return cLowerBounds_;
@@ -241,6 +241,10 @@ namespace learning{
             // store length of constraint
             cSize_.push_back(cSize);
 
+            // store bounds of this constraint
+            cLowerBounds_.push_back(lowerBound);
+            cUpperBounds_.push_back(upperBound);
+
             // store offset / index in 'cIndices_' and 'cCoeff_'
             cStart_.push_back(cOffset_);
 
-- 
2.43.0


From ee4dd975c31f52e6167450658eb7eaad0c5d1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 44/46] fix: ordering of indicator variables is decided by the
 first different variable label pair

---
 .../datastructures/indicator_variable.hxx     | 54 +++++++++----------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..cd195b6 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -571,18 +571,15 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            // the first pair which is different decides
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -599,18 +596,15 @@ bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
          return false;
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
-         if(indicatorVar1.variableLabelPairs_.size() == 0) {
-            return false;
-         }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            // the first pair which is different decides
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -628,14 +622,14 @@ bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            // the first pair which is different decides
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return true;
       }
       return true;
    }
@@ -653,14 +647,14 @@ bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            // the first pair which is different decides
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return true;
       }
       return true;
    }
-- 
2.43.0


From b3a73adf18a36723560d097fee9a75935c1dea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 45/46] fix: function identifiers are ordered by function type
 first, then by index

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 497032e..9b79a6e 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -885,8 +885,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -898,8 +898,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -911,8 +911,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -924,8 +924,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From 4f3fac1f46abe2c24416cd38f7b2cce01170c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 46/46] fix: three-valued logic variables compare by value

---
 include/opengm/utilities/tribool.hxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..afb9bf3 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -21,6 +21,7 @@ namespace opengm {
          Tribool& operator=(T);
       Tribool& operator=(Tribool::State state);
 
+      bool operator==(const Tribool& a) const;
       bool operator==(const bool a) const;
       template<class T>
          bool operator==(T a) const;
@@ -99,6 +100,15 @@ namespace opengm {
       return *this;
    }
 
+   inline bool 
+   Tribool::operator==
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ == a.value_;
+   }
+
    inline bool 
    Tribool::operator==
    (
@@ -126,7 +136,7 @@ namespace opengm {
    ) const
    {
       return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+         || (value_ != Tribool::False && a == false);
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0

