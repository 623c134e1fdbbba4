From af898be47dcb077f3d564eb54ba90e2c0a316e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 01/13] fix: compare the losses, not the gains twice, in
 quality equality

---
 src/lpaggreg/sources/quality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index 2187cc6..b831e8a 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -89,7 +89,7 @@ bool lpaggreg::operator==(lpaggreg::Quality &quality1, lpaggreg::Quality &qualit
     lp_quality_type precision=std::max(quality1.getGain()+quality2.getGain(),quality1.getLoss()+quality2.getLoss())/2*LP_PRECISION;
     return (quality1.getGain()==quality2.getGain()&&quality1.getLoss()==quality2.getLoss())||
             ((std::abs(quality1.getGain()-quality2.getGain())<precision)&&
-            (std::abs(quality1.getGain()-quality2.getGain())<precision));
+            (std::abs(quality1.getLoss()-quality2.getLoss())<precision));
 }
 
 bool lpaggreg::operator!=(lpaggreg::Quality &quality1, lpaggreg::Quality &quality2)
-- 
2.43.0


From a568f747aa064136dd16ed0378b5df35ed1ad7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 02/13] fix: define the trade-off arithmetic operators in the
 namespace that declares them

They were defined at global scope, so that any use of them failed to link.
---
 src/lpaggreg/sources/tradeoff.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index 33acb7a..b1399ea 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -84,7 +84,7 @@ void lpaggreg::Tradeoff::operator/=(lpaggreg::Tradeoff &tradeoff)
 }
 
 
-lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()+tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -94,7 +94,7 @@ lpaggreg::Tradeoff operator+(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()-tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -104,7 +104,7 @@ lpaggreg::Tradeoff operator-(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()*tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
@@ -114,7 +114,7 @@ lpaggreg::Tradeoff operator*(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &
 }
 
 
-lpaggreg::Tradeoff operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
+lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
     lp_quality_type value=tradeoff1.getValue()/tradeoff2.getValue();
     shared_ptr<lpaggreg::Quality> quality=shared_ptr<lpaggreg::Quality>(new lpaggreg::Quality());
-- 
2.43.0


From 3420159d2a90a1dc61f729c726a8954645f51415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 03/13] fix: make the trade-off comparison operators one total
 order

== only compared the values while > also compared gain and loss: a>b and a==b
could both hold and b<a not. The hierarchical partitioner, which uses <, then
kept a node although its children have the same trade-off and gain and less
loss (p=1, leaves 1 and 0), unlike the two other partitioners.
---
 src/lpaggreg/sources/tradeoff.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/sources/tradeoff.cpp b/src/lpaggreg/sources/tradeoff.cpp
index b1399ea..df24302 100644
--- a/src/lpaggreg/sources/tradeoff.cpp
+++ b/src/lpaggreg/sources/tradeoff.cpp
@@ -126,14 +126,15 @@ lpaggreg::Tradeoff lpaggreg::operator/(lpaggreg::Tradeoff &tradeoff1, lpaggreg::
 
 bool lpaggreg::operator==(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return tradeoff1.getValue()==tradeoff2.getValue();
-
+    return tradeoff1.getValue()==tradeoff2.getValue()&&
+            tradeoff1.getQuality()->getGain()==tradeoff2.getQuality()->getGain()&&
+            tradeoff1.getQuality()->getLoss()==tradeoff2.getQuality()->getLoss();
 }
 
 
 bool lpaggreg::operator!=(lpaggreg::Tradeoff &tradeoff1, lpaggreg::Tradeoff &tradeoff2)
 {
-    return !(tradeoff1.getValue()==tradeoff2.getValue());
+    return !(tradeoff1==tradeoff2);
 }
 
 
-- 
2.43.0


From eb311647724546f9080ad9c389200502ccd2214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 04/13] fix: process the children of a node before the node in
 unbalanced hierarchies

A node entered the path with its first child, possibly before its other
children: with leaves at different depths, sizes, children, root, and every
quality and partition computed from them were wrong (parents {3,2,3,-1}).
---
 src/lpaggreg/sources/hvalues.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/hvalues.cpp b/src/lpaggreg/sources/hvalues.cpp
index 85c3951..2e9bda5 100644
--- a/src/lpaggreg/sources/hvalues.cpp
+++ b/src/lpaggreg/sources/hvalues.cpp
@@ -20,14 +20,21 @@ void lpaggreg::HValuesMetaData::setPath()
     for (int h=leaveSize; h<hsize; h++){
         children.push_back(vector<int>());
     }
+    vector<int> missingChildren(hsize, 0);
+    for (int h=0; h<hsize; h++){
+        if (parents[h]!=-1){
+            missingChildren[parents[h]]++;
+        }
+    }
+    //a node enters the path once all its children are in it
     for (int i=0; parents[path[i]]!=-1; i++){
-        if (size.count(parents[path[i]])) {
-            size[parents[path[i]]]+=size[path[i]];
-        }else{
-            path.push_back(parents[path[i]]);
-            size[parents[path[i]]]=size[path[i]];
+        int parent=parents[path[i]];
+        size[parent]+=size[path[i]];
+        children[parent].push_back(path[i]);
+        missingChildren[parent]--;
+        if (missingChildren[parent]==0) {
+            path.push_back(parent);
         }
-        children[parents[path[i]]].push_back(path[i]);
     }
     root=path[path.size()-1];
 }
-- 
2.43.0


From 124d64f4105a047a980e69109585cf62368c89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 05/13] fix: sum an aggregate over the leaves of its own part

HAggregate and DAggregate started from the root and iterated over the children
of the part's node at every level: 0 for a leaf, endless recursion for a node
with inner children. The loop also ran over a reference into a destroyed vector.
---
 src/lpaggreg/sources/daggregationn.cpp | 21 ++++++++++---------
 src/lpaggreg/sources/haggregationn.cpp | 28 +++++++++++++++-----------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/lpaggreg/sources/daggregationn.cpp b/src/lpaggreg/sources/daggregationn.cpp
index a4bdb6a..3b35b69 100644
--- a/src/lpaggreg/sources/daggregationn.cpp
+++ b/src/lpaggreg/sources/daggregationn.cpp
@@ -10,7 +10,7 @@ void lpaggreg::DAggregateN2::compute()
 {
     sum=0;
     for (int o=part.getStart(); o<=part.getEnd();o++){
-        sum+=subSum(values->getMetaData().getRoot(), o);
+        sum+=subSum(part.getH(), o);
     }
     mean=sum/part.getSize();
 }
@@ -21,8 +21,9 @@ double lpaggreg::DAggregateN2::subSum(int h, int o)
         return (*values)(h, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, o);
     }
     return sum_t;
 }
@@ -48,7 +49,7 @@ void lpaggreg::DAggregateN3::compute()
         sum.push_back(0);
         mean.push_back(0);
         for (int o=part.getStart(); o<=part.getEnd();o++){
-            sum[i]+=subSum(values->getMetaData().getRoot(), i, o);
+            sum[i]+=subSum(part.getH(), i, o);
         }
         mean[i]=sum[i]/part.getSize();
     }
@@ -60,8 +61,9 @@ double lpaggreg::DAggregateN3::subSum(int h, int i, int o)
         return (*values)(h, i, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, o);
     }
     return sum_t;
 }
@@ -90,7 +92,7 @@ void lpaggreg::DAggregateN4::compute()
             sum[i].push_back(0);
             mean[i].push_back(0);
             for (int o=part.getStart(); o<=part.getEnd();o++){
-                sum[i][j]+=subSum(values->getMetaData().getRoot(), i, j, o);
+                sum[i][j]+=subSum(part.getH(), i, j, o);
             }
             mean[i][j]=sum[i][j]/part.getSize();
         }
@@ -103,8 +105,9 @@ double lpaggreg::DAggregateN4::subSum(int h, int i, int j, int o)
         return (*values)(h, i, j, o);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, o);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, o);
     }
     return sum_t;
 }
diff --git a/src/lpaggreg/sources/haggregationn.cpp b/src/lpaggreg/sources/haggregationn.cpp
index 61790b8..d92ff0f 100644
--- a/src/lpaggreg/sources/haggregationn.cpp
+++ b/src/lpaggreg/sources/haggregationn.cpp
@@ -8,7 +8,7 @@ lpaggreg::HAggregateN1::HAggregateN1(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN1::compute()
 {
     sum=0;
-    sum=subSum(values->getMetaData().getRoot());
+    sum=subSum(part.getH());
     mean=sum/part.getSize();
 }
 
@@ -18,8 +18,9 @@ double lpaggreg::HAggregateN1::subSum(int h)
         return (*values)(h);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child);
     }
     return sum_t;
 }
@@ -42,7 +43,7 @@ lpaggreg::HAggregateN2::HAggregateN2(lpaggreg::HPart part, shared_ptr<lpaggreg::
 void lpaggreg::HAggregateN2::compute()
 {
     for (int i=0; i<values->getVsize(); i++){
-        sum.push_back(subSum(values->getMetaData().getRoot(), i));
+        sum.push_back(subSum(part.getH(), i));
         mean.push_back(sum[i]/part.getSize());
     }
 }
@@ -53,8 +54,9 @@ double lpaggreg::HAggregateN2::subSum(int h, int i)
         return (*values)(h, i);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i);
     }
     return sum_t;
 }
@@ -80,7 +82,7 @@ void lpaggreg::HAggregateN3::compute()
         sum.push_back(vector<double>());
         mean.push_back(vector<double>());
         for (int j=0; j<values->getJ(); j++){
-            sum[i].push_back(subSum(values->getMetaData().getRoot(), i, j));
+            sum[i].push_back(subSum(part.getH(), i, j));
             mean[i].push_back(sum[i][j]/part.getSize());
         }
     }
@@ -92,8 +94,9 @@ double lpaggreg::HAggregateN3::subSum(int h, int i, int j)
         return (*values)(h, i, j);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j);
     }
     return sum_t;
 }
@@ -122,7 +125,7 @@ void lpaggreg::HAggregateN4::compute()
             sum[i].push_back(vector<double>());
             mean[i].push_back(vector<double>());
             for (int k=0; k<values->getK(); k++){
-                sum[i][j].push_back(subSum(values->getMetaData().getRoot(), i, j, k));
+                sum[i][j].push_back(subSum(part.getH(), i, j, k));
                 mean[i][j].push_back(sum[i][j][k]/part.getSize());
             }
         }
@@ -135,8 +138,9 @@ double lpaggreg::HAggregateN4::subSum(int h, int i, int j, int k)
         return (*values)(h, i, j, k);
     }
     double sum_t=0;
-    for (int h: (values->getMetaData().getChildren())[part.getH()]){
-        sum_t+=subSum(h, i, j, k);
+    vector<int> children=(values->getMetaData().getChildren())[h];
+    for (int child: children){
+        sum_t+=subSum(child, i, j, k);
     }
     return sum_t;
 }
-- 
2.43.0


From 989fbe7d27b4f07dd931d4ad8fc53b87a48b23f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 06/13] fix: let every interval of the two-dimensional
 partition be disaggregated

The left side of a temporal cut was forced to be one aggregate: only a suffix of
the time span could be handed to the children of a node, and the partition
returned was not the best one (and not symmetric in time).
---
 src/lpaggreg/sources/dpartition.cpp   | 8 ++++----
 src/lpaggreg/sources/dpartitioner.cpp | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lpaggreg/sources/dpartition.cpp b/src/lpaggreg/sources/dpartition.cpp
index 4850e9f..6028013 100644
--- a/src/lpaggreg/sources/dpartition.cpp
+++ b/src/lpaggreg/sources/dpartition.cpp
@@ -73,11 +73,11 @@ void lpaggreg::DPartition::computeSubPart(int h, int i, int j){
             int child=metaData.getChildren().operator [](h).operator [](k);
             computeSubPart(child, i, j);
         }
+    }else if (cut<j){
+        computeSubPart(h, i, cut);
+        computeSubPart(h, cut+1, j);
     }else{
-        parts.push_back(DPart(h, (metaData.getSize())[h], i, cut, (*(*qualities)[h])(i, cut)));
-        if (cut<j){
-            computeSubPart(h, cut+1, j);
-        }
+        parts.push_back(DPart(h, (metaData.getSize())[h], i, j, (*(*qualities)[h])(i, j)));
     }
 }
 
diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 0dd319f..c603a37 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -69,7 +69,6 @@ shared_ptr<lpaggreg::DPartition> lpaggreg::DPartitioner::computeBestPartition(fl
                 }
                 for (int cut_t=i; cut_t<j; cut_t++){
                     shared_ptr<Tradeoff> tradeoff_t=shared_ptr<Tradeoff>(new Tradeoff());
-                    ((*(tradeoff[h]))(i, cut_t))->set((*((*qualities)[h]))(i, cut_t), parameter);
                      *tradeoff_t+=*((*(tradeoff[h]))(i, cut_t));
                      *tradeoff_t+=*((*(tradeoff[h]))(cut_t+1, j));
                     if (*tradeoff_t>*((*(tradeoff[h]))(i, j))){
-- 
2.43.0


From 19107be81535d781354b96ee5992e8f1fe91eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 07/13] fix: normalize by a copy of the total quality

The root's quality is among those divided: unless the root had the last index,
the nodes after it were divided by 1.
---
 src/lpaggreg/sources/dqualities.cpp | 4 ++--
 src/lpaggreg/sources/hqualities.cpp | 4 ++--
 src/lpaggreg/sources/oqualities.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index f7f9031..8506445 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,10 +12,10 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    shared_ptr<Quality> max=(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=(*max);
+            *((*((*qualities)[h]))[i])/=max;
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index b0fd4f4..a144126 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -13,9 +13,9 @@ lpaggreg::HQualities::HQualities(shared_ptr<lpaggreg::HValues> values):values(va
 
 void lpaggreg::HQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)[metaData.getRoot()];
+    Quality max=*(*qualities)[metaData.getRoot()];
     for (auto quality : *qualities){
-        *quality/=*max;
+        *quality/=max;
     }
 }
 
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index e1387c5..9f7dd97 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,9 +12,9 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    shared_ptr<Quality> max=(*qualities)(0, values->getOsize()-1);
+    Quality max=*(*qualities)(0, values->getOsize()-1);
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=(*max);
+        (*(*qualities)[i])/=max;
     }
 }
 
-- 
2.43.0


From ec94f4fa5fdabf9af8d30201064df4377f12f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 08/13] fix: normalize qualities that were given as a matrix

There are no values then: normalize() dereferenced a null pointer.
---
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 8506445..7ed702a 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::DQualities::DQualities(shared_ptr<lpaggreg::DValues> values):values(va
 
 void lpaggreg::DQualities::normalize()
 {
-    Quality max=*(*(*qualities)[metaData.getRoot()])(0, values->getOsize()-1);
+    Quality max=*(*(*qualities)[metaData.getRoot()])(0, (*qualities)[0]->getSize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
             *((*((*qualities)[h]))[i])/=max;
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index 9f7dd97..eeee66f 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -12,7 +12,7 @@ lpaggreg::OQualities::OQualities(shared_ptr<lpaggreg::OValues> values):values(va
 
 void lpaggreg::OQualities::normalize()
 {
-    Quality max=*(*qualities)(0, values->getOsize()-1);
+    Quality max=*(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
         (*(*qualities)[i])/=max;
     }
-- 
2.43.0


From 4ccc66201b3614361c55333c2708a132ac2cbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 09/13] fix: normalize homogeneous data to a null loss

A total gain or loss of 0 gave NaN, and one of rounding noise (1e-17) gave
arbitrary ratios, on which the partitions were then based: constant data were
cut in pieces.
---
 src/lpaggreg/headers/quality.h      | 3 +++
 src/lpaggreg/sources/dqualities.cpp | 2 +-
 src/lpaggreg/sources/hqualities.cpp | 2 +-
 src/lpaggreg/sources/oqualities.cpp | 2 +-
 src/lpaggreg/sources/quality.cpp    | 7 +++++++
 5 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lpaggreg/headers/quality.h b/src/lpaggreg/headers/quality.h
index b0517e5..94aa824 100644
--- a/src/lpaggreg/headers/quality.h
+++ b/src/lpaggreg/headers/quality.h
@@ -47,6 +47,9 @@ namespace lpaggreg{
         /*Add a value to currenlp_quality_type loss*/
         void addToLoss(lp_quality_type loss);
 
+        /*Divide by a total quality; a null total gives 0*/
+        void normalize(const Quality &max);
+
         /*Override operators*/
 
         void operator+=(Quality &quality);
diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index 7ed702a..b942d92 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -15,7 +15,7 @@ void lpaggreg::DQualities::normalize()
     Quality max=*(*(*qualities)[metaData.getRoot()])(0, (*qualities)[0]->getSize()-1);
     for (int h = 0; h < metaData.getHsize(); h++){
         for (int i=0; i<((*qualities)[h])->getElements(); i++){
-            *((*((*qualities)[h]))[i])/=max;
+            (*((*qualities)[h]))[i]->normalize(max);
         }
     }
 }
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index a144126..e9563a8 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -15,7 +15,7 @@ void lpaggreg::HQualities::normalize()
 {
     Quality max=*(*qualities)[metaData.getRoot()];
     for (auto quality : *qualities){
-        *quality/=max;
+        quality->normalize(max);
     }
 }
 
diff --git a/src/lpaggreg/sources/oqualities.cpp b/src/lpaggreg/sources/oqualities.cpp
index eeee66f..dc6dd0f 100644
--- a/src/lpaggreg/sources/oqualities.cpp
+++ b/src/lpaggreg/sources/oqualities.cpp
@@ -14,7 +14,7 @@ void lpaggreg::OQualities::normalize()
 {
     Quality max=*(*qualities)(0, qualities->getSize()-1);
     for (int i=0; i<qualities->getElements(); i++){
-        (*(*qualities)[i])/=max;
+        (*qualities)[i]->normalize(max);
     }
 }
 
diff --git a/src/lpaggreg/sources/quality.cpp b/src/lpaggreg/sources/quality.cpp
index b831e8a..9c895ed 100644
--- a/src/lpaggreg/sources/quality.cpp
+++ b/src/lpaggreg/sources/quality.cpp
@@ -40,6 +40,13 @@ void lpaggreg::Quality::addToLoss(lp_quality_type loss)
     this->loss+=loss;
 }
 
+void lpaggreg::Quality::normalize(const lpaggreg::Quality &max)
+{
+    //a total which is null, up to the rounding of the other one, has only null parts
+    gain=std::abs(max.getGain())>LP_PRECISION*std::abs(max.getLoss())?gain/max.getGain():0;
+    loss=std::abs(max.getLoss())>LP_PRECISION*std::abs(max.getGain())?loss/max.getLoss():0;
+}
+
 void lpaggreg::Quality::operator+=(lpaggreg::Quality &quality)
 {
     gain+=quality.getGain();
-- 
2.43.0


From b9fa1fa2b9ffe8aca339dd08c0ec9ecc4bb16f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 10/13] fix: stop the search for best partitions at adjacent
 parameters

With a threshold below the spacing of floats (6e-8 near 1) the middle of two
adjacent parameters is one of them, and the recursion never ended.
---
 src/lpaggreg/sources/dpartitioner.cpp | 3 +++
 src/lpaggreg/sources/hpartitioner.cpp | 3 +++
 src/lpaggreg/sources/opartitioner.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index c603a37..10bd16c 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -104,6 +104,9 @@ void lpaggreg::DPartitioner::addBestQualities(float threshold, shared_ptr<DParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<DPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 634c695..3089ffa 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -90,6 +90,9 @@ void lpaggreg::HPartitioner::addBestQualities(float threshold, shared_ptr<HParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<HPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index a111e56..566f126 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -69,6 +69,9 @@ void lpaggreg::OPartitioner::addBestQualities(float threshold, shared_ptr<OParti
 {
     if ((*bestPartitionMin!=*bestPartitionMax)&&bestPartitionMax->getParameter()-bestPartitionMin->getParameter()>threshold){
         float parameter=bestPartitionMin->getParameter()+(bestPartitionMax->getParameter()-bestPartitionMin->getParameter())/2;
+        if (parameter<=bestPartitionMin->getParameter()||parameter>=bestPartitionMax->getParameter()){
+            return;
+        }
         shared_ptr<OPartition> bestPartitionMid;
         bestPartitionMid=computeBestPartition(parameter);
         addBestQualities(threshold, bestPartitionMin, bestPartitionMid);
-- 
2.43.0


From a93fa030bb07e56ec2a2741fe032379cf833bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 11/13] fix: keep the partition when both bounds of the
 parameter are the same

The parameter was listed twice and its only partition erased as a duplicate.
---
 src/lpaggreg/sources/dpartitioner.cpp | 6 ++++--
 src/lpaggreg/sources/hpartitioner.cpp | 6 ++++--
 src/lpaggreg/sources/opartitioner.cpp | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lpaggreg/sources/dpartitioner.cpp b/src/lpaggreg/sources/dpartitioner.cpp
index 10bd16c..259828d 100644
--- a/src/lpaggreg/sources/dpartitioner.cpp
+++ b/src/lpaggreg/sources/dpartitioner.cpp
@@ -23,8 +23,10 @@ void lpaggreg::DPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 3089ffa..7146ae2 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -24,8 +24,10 @@ void lpaggreg::HPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
diff --git a/src/lpaggreg/sources/opartitioner.cpp b/src/lpaggreg/sources/opartitioner.cpp
index 566f126..e9f49a9 100644
--- a/src/lpaggreg/sources/opartitioner.cpp
+++ b/src/lpaggreg/sources/opartitioner.cpp
@@ -23,8 +23,10 @@ void lpaggreg::OPartitioner::computeBestPartitions(float threshold, float min, f
     partitions[min]=bestPartitionMin;
     bestPartitionMax=computeBestPartition(max);
     addBestQualities(threshold, bestPartitionMin, bestPartitionMax);
-    pList.push_back(max);
-    partitions[max]=bestPartitionMax;
+    if (max!=min){
+        pList.push_back(max);
+        partitions[max]=bestPartitionMax;
+    }
     for (auto it = pList.end()-1; it!=pList.begin();it--){
         auto it2=it-1;
         if (*(partitions[*it])==*(partitions[*it2])){
-- 
2.43.0


From 3bad91c1afa84ff13ac7b663a281057ce1a61f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 12/13] fix: return a listed parameter from getP and start the
 search for the best score unbounded

---
 src/lpaggreg/sources/partitioner.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lpaggreg/sources/partitioner.cpp b/src/lpaggreg/sources/partitioner.cpp
index f4bc9bb..e823b93 100644
--- a/src/lpaggreg/sources/partitioner.cpp
+++ b/src/lpaggreg/sources/partitioner.cpp
@@ -12,9 +12,12 @@ vector<float> lpaggreg::Partitioner::getPList() const
 
 float lpaggreg::Partitioner::getP(int strategy)
 {
+    if (pList.empty()){
+        return 0;
+    }
     switch(strategy){
     case P_MIN:
-        return 0;
+        return pList[0];
     case P_MAX:
         return pList[pList.size()-1];
     case P_OPT:
@@ -26,7 +29,7 @@ float lpaggreg::Partitioner::getP(int strategy)
 float lpaggreg::Partitioner::computeAUC()
 {
     float auc=0.0;
-    for (int i=0; i<pList.size()-1; i++){
+    for (int i=0; i+1<pList.size(); i++){
         auc+=((qualityList[pList[i+1]])->getGain()-(qualityList[pList[i]])->getGain())*((qualityList[pList[i+1]])->getLoss()+(qualityList[pList[i]])->getLoss())/2;
     }
     return 1.0-auc;
@@ -39,8 +42,8 @@ map<float, shared_ptr<lpaggreg::Quality> > lpaggreg::Partitioner::getQualityList
 
 float lpaggreg::Partitioner::computePOpt()
 {
-    float popt;
-    lp_quality_type score=RAND_MAX;
+    float popt=pList[0];
+    lp_quality_type score=INFINITY;
     for (float p: pList){
         lp_quality_type gain=(qualityList[p])->getGain();
         lp_quality_type loss=(qualityList[p])->getLoss();
-- 
2.43.0


From 2aa17ae967cdd5fcba02de182359c20d9e8c6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 13/13] fix: process a hierarchy that is one single node

---
 src/lpaggreg/sources/dqualities.cpp   | 15 +++++++++++++++
 src/lpaggreg/sources/hpartitioner.cpp |  3 +++
 src/lpaggreg/sources/hqualities.cpp   |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/src/lpaggreg/sources/dqualities.cpp b/src/lpaggreg/sources/dqualities.cpp
index b942d92..d4c1535 100644
--- a/src/lpaggreg/sources/dqualities.cpp
+++ b/src/lpaggreg/sources/dqualities.cpp
@@ -41,6 +41,21 @@ void lpaggreg::DQualities::computeQualities()
             sum.push_back(UpperTriangularMatrix<lp_quality_type>(osize));
             info.push_back(UpperTriangularMatrix<lp_quality_type>(osize));
         }
+        if (hsize==1){
+            //the only node is a leaf without parent
+            h = metaData.getRoot();
+            for (int i = osize-1; i >=0; i--) {
+                (sum[h])(i,i,(*values)[h][k][i]);
+                (info[h])(i,i,entropyReduction((*values)[h][k][i], 0));
+                for (int j = i+1; j < osize; j++) {
+                    (sum[h])(i,j,(sum[h])(i+1,j)+(sum[h])(i,i));
+                    (info[h])(i,j,(info[h])(i+1,j)+(info[h])(i,i));
+                    (*(*qualities)[h])(i,j)->addToGain(entropyReduction((sum[h])(i,j), (info[h])(i,j)));
+                    (*(*qualities)[h])(i,j)->addToLoss(divergence(j-i+1, (sum[h])(i,j), (info[h])(i,j)));
+                }
+            }
+            continue;
+        }
         for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
             for (int i = osize-1; i >=0; i--) {
                 (sum[h])(i,i,(*values)[h][k][i]);
diff --git a/src/lpaggreg/sources/hpartitioner.cpp b/src/lpaggreg/sources/hpartitioner.cpp
index 7146ae2..35e6064 100644
--- a/src/lpaggreg/sources/hpartitioner.cpp
+++ b/src/lpaggreg/sources/hpartitioner.cpp
@@ -55,6 +55,9 @@ shared_ptr<lpaggreg::HPartition> lpaggreg::HPartitioner::computeBestPartition(fl
         tradeoffChildren.push_back(shared_ptr<Tradeoff>(new Tradeoff()));
         aggregated.push_back(true);
     }
+    if (hsize==1){
+        return shared_ptr<HPartition>(new HPartition(aggregated, qualities, parameter, metaData));
+    }
     int i=0;
     int h;
     for (h = (metaData.getPath())[i]; i < metaData.getLeaveSize(); h = (metaData.getPath())[++i]){
diff --git a/src/lpaggreg/sources/hqualities.cpp b/src/lpaggreg/sources/hqualities.cpp
index e9563a8..32dde3a 100644
--- a/src/lpaggreg/sources/hqualities.cpp
+++ b/src/lpaggreg/sources/hqualities.cpp
@@ -30,6 +30,9 @@ void lpaggreg::HQualities::computeQualities()
     for (int h = 0; h < hsize; h++){
         (*qualities)[h]=shared_ptr<Quality>(new Quality());
     }
+    if (hsize==1){
+        return;
+    }
     for (int k=0; k < vsize; k++){
         int i=0;
         int h;
-- 
2.43.0

