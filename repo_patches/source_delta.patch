From ede67280ac2fa899e91cd8ccc5dafacce9edd7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 01/17] fix: order the hierarchy path so that every node
 follows all its children

setPath() stopped at the first node without parent and pushed a parent as
soon as its first child was seen: with leaves at different depths the root,
the sizes, the children and the path were wrong, and the qualities read out
of bounds.
---
 src/lpaggreg/sources/hvalues.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..5080af3 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,14 +20,23 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
-    for (int i=0; parents[path[i]]!=-1; i++){
-        if (size.count(parents[path[i]])) {
-            size[parents[path[i]]]+=size[path[i]];
-        }else{
-            path.push_back(parents[path[i]]);
-            size[parents[path[i]]]=size[path[i]];
+    vector<int> remaining(hsize, 0);
+    for (int h=0; h<hsize; h++){
+        if (parents[h]!=-1){
+            remaining[parents[h]]++;
+        }
+    }
+    for (int i=0; i<path.size(); i++){
+        int parent=parents[path[i]];
+        if (parent==-1){
+            continue;
+        }
+        size[parent]+=size[path[i]];
+        children[parent].push_back(path[i]);
+        //a node follows all its children on the path
+        if (--remaining[parent]==0){
+            path.push_back(parent);
         }
-        children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
 }
-- 
2.43.0


From 1ea655cfa854e443786191358091346e3eba3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/17] fix: sum the values of the aggregate's own part

The hierarchical and combined aggregates started at the root and walked the
children of the part at every level: a leaf's aggregate was 0, and a part
with inner nodes below it recursed for ever. The loop also ran over a
temporary that no longer existed.
---
 src/lpaggreg/sources/daggregationn.cpp | 21 ++++++++++---------
 src/lpaggreg/sources/haggregationn.cpp | 28 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,9 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +49,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +61,9 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +92,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +105,9 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,9 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +43,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +54,9 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +82,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +94,9 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +125,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +138,9 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From 83287adf2c706cc3afce019efb2d48f6d0089fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 03/17] fix: keep the divisor while normalising hierarchical
 and combined qualities

The divisor was the root's own entry, which became (1,1) when its turn came:
every node numbered after the root kept its raw quality.
---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..a46cd92 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*((*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..76a3033 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max=*((*qualities)[metaData.getRoot()]);
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
-- 
2.43.0


From ab6a729bf95e93a2eedb0d4660b98f73e95c72eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/17] fix: normalise qualities that were supplied without
 values

normalize() asked the values for the number of slices; ordered and combined
qualities built from a quality table have none.
---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index a46cd92..5f8e6d0 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    Quality max=*((*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1));
+    Quality max=*((*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1));
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..5ef5513 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=(*max);
     }
-- 
2.43.0


From fc40d2df3141d91710c09d2455c056f450a8aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 05/17] fix: do not divide by zero when normalising

Data with no gain at all (all values 0, a single slice, a single non-zero
value) or with no loss became NaN or infinite.
---
 src/lpaggreg/sources/dqualities.cpp |  7 +++++++
 src/lpaggreg/sources/hqualities.cpp |  7 +++++++
 src/lpaggreg/sources/oqualities.cpp | 11 +++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 5f8e6d0..b083370 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -13,6 +13,13 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 void lpaggreg::DQualities::normalize()
 {
     Quality max=*((*(*qualities)[metaData.getRoot()])(0, ((*qualities)[metaData.getRoot()])->getSize()-1));
+    //nothing to rescale where the complete aggregation has no gain or no loss
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index 76a3033..107ebb6 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -14,6 +14,13 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 void lpaggreg::HQualities::normalize()
 {
     Quality max=*((*qualities)[metaData.getRoot()]);
+    //nothing to rescale where the complete aggregation has no gain or no loss
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (auto quality : *qualities){
         *quality/=max;
     }
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 5ef5513..001c41e 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,16 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, qualities->getSize()-1);
+    Quality max=*((*qualities)(0, qualities->getSize()-1));
+    //nothing to rescale where the complete aggregation has no gain or no loss
+    if (max.getGain()==0){
+        max.setGain(1);
+    }
+    if (max.getLoss()==0){
+        max.setLoss(1);
+    }
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        (*(*qualities)[i])/=max;
     }
 }
 
-- 
2.43.0


From e7aeed122c4b18390a7b211b94b7013226822679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 06/17] fix: treat a loss within rounding as none

Aggregating equal values loses nothing, but divergence() left a residue of
either sign in the last digits. Such data was then not aggregated at p=0,
and normalising divided that residue by itself.
---
 src/lpaggreg/sources/complexity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/complexity.cpp b/src/lpaggreg/sources/complexity.cpp
index 57a458d..68fb90c 100644
--- a/src/lpaggreg/sources/complexity.cpp
+++ b/src/lpaggreg/sources/complexity.cpp
@@ -47,5 +47,10 @@ lp_quality_type  entropyReduction(lp_quality_type  val, lp_quality_type  ent) {
 }
 
 lp_quality_type  divergence(int size, lp_quality_type  value, lp_quality_type  ent) {
-	return (value) * log(size) / ln - entropyReduction(value, ent);
+	lp_quality_type  reference = (value) * log(size) / ln;
+	lp_quality_type  result = reference - entropyReduction(value, ent);
+	// a difference within the rounding of its terms is none
+	if (std::abs(result) < LP_PRECISION * (std::abs(reference) + std::abs(ent)))
+		return 0;
+	return result;
 }
-- 
2.43.0


From 4ca7b804cdc9265de07a6bb7e269a92e85cd8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 07/17] fix: weigh the best value of the left part of a
 temporal cut

The combined partitioner reset the tradeoff of the left part to that of the aggregated part, and read the left part of a cut as one part, so the partition found was not the best.
---
 src/lpaggreg/sources/dpartition.cpp   | 8 ++++----
 src/lpaggreg/sources/dpartitioner.cpp | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..cee4699 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -73,11 +73,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             int child=metaData.getChildren().operator [](h).operator [](k);
             computeSubPart(child, i, j);
         }
+    }else if (cut==j){
+        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
     }else{
-        parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
-        if (cut<j){
-            computeSubPart(h, cut+1, j);
-        }
+        computeSubPart(h, i, cut);
+        computeSubPart(h, cut+1, j);
     }
 }
 
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..c603a37 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -69,7 +69,6 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
                      *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                      *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
-- 
2.43.0


From 293f2a3879adde0470e6445617a48ec1591dd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 08/17] fix: order equal trade-offs by gain and loss in
 operator< as well

Two trade-offs of the same value were never < although one was >, so the hierarchical partitioner kept an aggregation that loses data at no gain.
---
 src/lpaggreg/sources/tradeoff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..d9becfd 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -154,7 +154,7 @@ bool lpaggreg::operator<=(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tra
 
 bool lpaggreg::operator<(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return !(tradeoff1>tradeoff2||tradeoff1==tradeoff2);
+    return tradeoff2>tradeoff1;
 }
 
 
-- 
2.43.0


From 32c692bc27573608ec3fc40b4daad7d44ccd4694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 09/17] fix: compare the loss of two qualities, not twice the
 gain

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From 1d1e279c81121c4a3c13c547831285de05f3082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 10/17] fix: define the binary trade-off operators in their
 namespace

They were declared in lpaggreg but defined globally, so their users did not link.
---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index d9becfd..486dcd2 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From 0b3325d4db7da822ae002a0f39aa6269373cf686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 11/17] fix: give a copied trade-off its own quality

Copies shared their quality, so arithmetic on one of them changed the gain and loss of the other.
---
 src/lpaggreg/headers/tradeoff.h   |  3 ++-
 src/lpaggreg/sources/tradeoff.cpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/headers/tradeoff.h b/src/lpaggreg/headers/tradeoff.h
index a185438..6191542 100644
--- a/src/lpaggreg/headers/tradeoff.h
+++ b/src/lpaggreg/headers/tradeoff.h
@@ -18,7 +18,8 @@ namespace lpaggreg{
 
     public:
         Tradeoff();
-        //Tradeoff(Tradeoff &tradeoff);
+        Tradeoff(const Tradeoff &tradeoff);
+        Tradeoff& operator=(const Tradeoff &tradeoff);
         Tradeoff(shared_ptr<Quality> quality);
         Tradeoff(lp_quality_type value, shared_ptr<Quality> quality);
         Tradeoff(shared_ptr<Quality> quality, float p);
diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 486dcd2..1235c51 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -30,10 +30,18 @@ lpaggreg::Tradeoff::Tradeoff()
     value=0;
 }
 
-/*lpaggreg::Tradeoff::Tradeoff(Tradeoff &tradeoff):value(tradeoff.getValue()), quality(tradeoff.getQuality())
+lpaggreg::Tradeoff::Tradeoff(const Tradeoff &tradeoff):value(tradeoff.value)
 {
+    this->quality=shared_ptr<Quality>(new Quality(*(tradeoff.quality)));
+}
+
 
-}*/
+lpaggreg::Tradeoff& lpaggreg::Tradeoff::operator=(const Tradeoff &tradeoff)
+{
+    this->quality=shared_ptr<Quality>(new Quality(*(tradeoff.quality)));
+    value=tradeoff.value;
+    return *this;
+}
 
 
 lpaggreg::Tradeoff::Tradeoff(lp_quality_type value, shared_ptr<lpaggreg::Quality> quality):value(value)
-- 
2.43.0


From 487c7757fdfde681f6f8933ec5837907d4ddfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 12/17] fix: end the search when no parameter is left between
 two others

A threshold below the resolution of float made the search recurse for ever.
---
 src/lpaggreg/sources/dpartitioner.cpp | 3 +++
 src/lpaggreg/sources/hpartitioner.cpp | 3 +++
 src/lpaggreg/sources/opartitioner.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index c603a37..10bd16c 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -104,6 +104,9 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..3089ffa 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -90,6 +90,9 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..566f126 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -69,6 +69,9 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From 2ec234badd1281e039c29cb989e2b3aed8092e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 13/17] fix: keep the partition when the search range is a
 single parameter

The parameter was listed twice, and removing the second also removed the partition of the first.
---
 src/lpaggreg/sources/dpartitioner.cpp | 10 ++++++----
 src/lpaggreg/sources/hpartitioner.cpp | 10 ++++++----
 src/lpaggreg/sources/opartitioner.cpp | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 10bd16c..3b58022 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -21,10 +21,12 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 3089ffa..e42ff41 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -22,10 +22,12 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 566f126..7ffe734 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -21,10 +21,12 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     bestPartitionMin=computeBestPartition(min);
     pList.push_back(min);
     partitions[min]=bestPartitionMin;
-    bestPartitionMax=computeBestPartition(max);
-    addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        bestPartitionMax=computeBestPartition(max);
+        addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-- 
2.43.0


From 706a11bd6b2943dbf5ac88d46a460a9e85a39b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 14/17] fix: do not step back from an invalidated iterator

---
 src/lpaggreg/sources/dpartitioner.cpp | 2 +-
 src/lpaggreg/sources/hpartitioner.cpp | 2 +-
 src/lpaggreg/sources/opartitioner.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 3b58022..d564c39 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -31,7 +31,7 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index e42ff41..6890101 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -32,7 +32,7 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 7ffe734..f2ac951 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -31,7 +31,7 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
             partitions.erase(partitions.find(*it));
-            pList.erase(it);
+            it=pList.erase(it);
         }
     }
     for (auto it : partitions){
-- 
2.43.0


From 2bee0d48ffff233af2b2769e5156a598ccea5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 15/17] fix: let the optimal strategy return a listed parameter
 for qualities of any magnitude

---
 src/lpaggreg/sources/partitioner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..e210b4b 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include "partitioner.h"
 
 lpaggreg::Partitioner::Partitioner()
@@ -39,8 +40,8 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=0;
+    lp_quality_type score=numeric_limits<lp_quality_type>::infinity();
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
-- 
2.43.0


From 72622539f56229237d757be00f935d219e2869c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 16/17] fix: let the hierarchy path be set again

---
 src/lpaggreg/sources/hvalues.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 5080af3..7364953 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -12,6 +12,9 @@ lpaggreg::HValuesProxy lpaggreg::HValues::operator[](unsigned int h)
 
 void lpaggreg::HValuesMetaData::setPath()
 {
+    path.clear();
+    children.clear();
+    size.clear();
     for (int h=0; h<leaveSize; h++){
         path.push_back(h);
         children.push_back(vector<int>());
-- 
2.43.0


From 0b0884a962e7d06fabe1f5d443c5146dbaec397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 17/17] fix: let the minimum strategy return the first listed
 parameter of a search over part of the range

---
 src/lpaggreg/sources/partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index e210b4b..77551a3 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -15,7 +15,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 {
     switch(strategy){
     case P_MIN:
-        return 0;
+        return pList.empty()?0:pList[0];
     case P_MAX:
         return pList[pList.size()-1];
     case P_OPT:
-- 
2.43.0

