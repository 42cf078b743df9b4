From f353a76caf4e6a38ec0e71e7a390f0f6f5a50d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:44 +0000
Subject: [PATCH 01/84] fix: initialise the memory pool in the ListGrid copy
 constructor

---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From 94cbfcb3da3d15f07cb70a1e156e9aea1c1d6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:44 +0000
Subject: [PATCH 02/84] fix: let the first entry of a moved ListGrid cell refer
 to its new cell

---
 src/tools/ListGrid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..0c80a3c 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,9 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    //the first entry refers back to its cell
+                    if(cells[newX][newY])
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From 2aad5a97f1b09427dba32125955d6b3ad96bccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 03/84] fix: normalise the Gaussian density by the square root
 of the determinant

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..c785184 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
-- 
2.43.0


From ba1d701dd0041c0110ccdf123a95259e97997913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 04/84] fix: weight the components when evaluating a Gaussian
 mixture

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index c785184..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From 8680d5ef2301b919866b91a963f382165ae05116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:52 +0000
Subject: [PATCH 05/84] fix: reject box distance lookups one cell past the
 upper end of the table

---
 src/tools/BoxLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..f9e2222 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -122,7 +122,7 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     int x = (xp + centerX) / scale;
     int y = (yp + centerY) / scale;
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From 34bffac2dd0d6bfb8005a7af98f54ee6223c6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:52 +0000
Subject: [PATCH 06/84] fix: reject box distance lookups below the lower end of
 the table

---
 src/tools/BoxLookUpTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index f9e2222..a9d7009 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -119,8 +119,8 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     if(!distanceTable)
         throw std::runtime_error("BoxLookUpTable::Lookup table is not computed");    
 
-    int x = (xp + centerX) / scale;
-    int y = (yp + centerY) / scale;
+    int x = floor((xp + centerX) / scale);
+    int y = floor((yp + centerY) / scale);
     
     if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
-- 
2.43.0


From d578d8638db41c814bb3570a8c599f992dae8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:58 +0000
Subject: [PATCH 07/84] fix: fill the last cells of the box distance table

A last row or column covered by less than one sampling step was never
sampled and answered 0, the value of a point inside the box.
---
 src/tools/BoxLookUpTable.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index a9d7009..0a3dfbf 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -1,5 +1,6 @@
 #include "BoxLookUpTable.hpp"
 #include <math.h>
+#include <algorithm>
 #include <stdexcept>
 #include <iostream>
 #include <iomanip>
@@ -62,14 +63,17 @@ void BoxLookUpTable::computeDistances()
         }
     }
     
-    for(double x = -(sizeXHalf + maxDistFromBox); x < (sizeXHalf + maxDistFromBox); x+= scale / 10.0)
+    //the far border is sampled too, or a last cell covered by less than a step stays empty
+    for(double sx = -(sizeXHalf + maxDistFromBox); sx < (sizeXHalf + maxDistFromBox) + scale / 10.0; sx+= scale / 10.0)
     {        
+        const double x = std::min(sx, sizeXHalf + maxDistFromBox);
         int xi = (x + centerX) / scale;
         if(xi < 0 || xi >= cellSizeX)
             continue;
         
-        for(double y = -(sizeYHalf + maxDistFromBox); y < (sizeYHalf + maxDistFromBox); y+= scale / 10.0)
+        for(double sy = -(sizeYHalf + maxDistFromBox); sy < (sizeYHalf + maxDistFromBox) + scale / 10.0; sy+= scale / 10.0)
         {
+            const double y = std::min(sy, sizeYHalf + maxDistFromBox);
             int yi = (y + centerY) / scale;
 
             if(yi < 0 || yi >= cellSizeY)
-- 
2.43.0


From 5f7c841aa8d634a989c7bb2e54a59cc8b00ba721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 08/84] fix: keep an item alive while it moves to another
 environment

---
 src/core/Environment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..832077c 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -264,6 +264,9 @@ void Environment::attachItem(EnvironmentItem* item)
 {
     assert( item );
 
+    // keeps an item that changes its environment alive in between
+    EnvironmentItem::Ptr moved;
+
     if(!item->isAttached())
     {
         if(item->unique_id == ITEM_NOT_ATTACHED)
@@ -290,7 +293,7 @@ void Environment::attachItem(EnvironmentItem* item)
     {
 	// if it comes from a different environment, it
 	// needs to be detached first
-	item->detach();
+	moved = item->detach();
     }
 
     // make sure item not already present
-- 
2.43.0


From 8c2de44a89c3b8d2b0026d0f4c123f006aaf5d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 09/84] fix: do not add the same parent to a layer twice

---
 src/core/Environment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 832077c..c38aaf7 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -431,9 +431,11 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
-	return;
+    typedef layerTreeType::iterator iterator;
+    std::pair<iterator,iterator> range = layerTree.equal_range( child );
+    for( iterator it = range.first; it != range.second; it++ )
+	if( it->second == parent )
+	    return;
     
     if( !child->isAttached() )
 	attachItem( child );
-- 
2.43.0


From 9191ba6f2721648c1db35939b77e61f436451f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 10/84] fix: do not add the same input or output to an operator
 twice

---
 src/core/Environment.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index c38aaf7..34733d2 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -614,9 +614,11 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
-	return false;
+    typedef operatorGraphType::iterator iterator;
+    std::pair<iterator,iterator> range = operatorGraphInput.equal_range( op );
+    for( iterator it = range.first; it != range.second; it++ )
+	if( it->second == input )
+	    return false;
     
     if( !op->isAttached() )
 	attachItem( op );
@@ -632,9 +634,11 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
-	return false;
+    typedef operatorGraphType::iterator iterator;
+    std::pair<iterator,iterator> range = operatorGraphOutput.equal_range( op );
+    for( iterator it = range.first; it != range.second; it++ )
+	if( it->second == output )
+	    return false;
 
     if( !op->isAttached() )
 	attachItem( op );
-- 
2.43.0


From 3d7e60dd04bef7e1a8a968b56049bc8386da0cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 11/84] fix: detach a layer from the operator that generates it

---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From 4a25f729f2c986dbd944dc5364cd4a05924edc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 12/84] fix: a layer updated from its operator is not dirty any
 more

---
 src/core/Layer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..4f96c7b 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -120,7 +120,10 @@ Operator* Layer::getGenerator() const
 void Layer::updateFromOperator() 
 {
     if( isGenerated() && isDirty() )
+    {
         getGenerator()->updateAll();
+        resetDirty();
+    }
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From f5f660a0ad23218f004c17720b4b1dcdad3a9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 13/84] fix: refuse access to held data under another type

---
 src/core/Holder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..c6701a2 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -2,6 +2,7 @@
 #define ENVIRE_HOLDER__
 
 #include <boost/noncopyable.hpp>
+#include <stdexcept>
 
 namespace envire
 {
@@ -64,13 +65,19 @@ namespace envire
     }
     template <typename T> T& HolderBase::get()
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T>* myself = dynamic_cast< Holder<T>* >(this);
+        if (!myself)
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T> const* myself = dynamic_cast< Holder<T> const* >(this);
+        if (!myself)
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 }
 
-- 
2.43.0


From 0873f4cc2e8910887d4edb0efae4606b3eadf61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:57 +0000
Subject: [PATCH 14/84] fix: bounding box of a 2D map in another frame read an
 uninitialised coordinate

---
 src/Core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core.hpp b/src/Core.hpp
index 8c4dd45..89f4e23 100644
--- a/src/Core.hpp
+++ b/src/Core.hpp
@@ -128,7 +128,7 @@ namespace envire
 	    // go through all the permutations to get the corners
 	    for( int i=0; i<pow(2,DIMENSION); i++ )
 	    {
-		Eigen::Vector3d corner;
+		Eigen::Vector3d corner = Eigen::Vector3d::Zero();
 		for( int j=0; j<DIMENSION; j++ )
 		    corner[j] = (i>>j)&1 ? pc_extents.min()[j] : pc_extents.max()[j];
 		corners.push_back( corner );
-- 
2.43.0


From 6f61b66a3ce4424dfb459028f4060994c1d4a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:23 +0000
Subject: [PATCH 15/84] fix: sign of a term in the derivative of a rotated
 point by the rotation

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..930a7c3 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -126,7 +126,7 @@ Eigen::Matrix<double,3,3> drx_by_dr( const Eigen::Quaterniond& q, const Eigen::V
     const double theta = r.norm();
     const double alpha = 1.0 - theta*theta/6.0;
     const double beta = 0.5 - theta*theta/24.0;
-    const double gamma = 1.0 / 3.0 - theta*theta/30.0;
+    const double gamma = -1.0 / 3.0 + theta*theta/30.0;
     const double delta = -1.0 / 12.0 + theta*theta/180.0;
 
     return Eigen::Matrix3d(
-- 
2.43.0


From 66309fd48b8485b82a0f9e9da70ae8691c0ee335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:23 +0000
Subject: [PATCH 16/84] fix: sign of the rotation part in the covariance of an
 inverse transform

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 930a7c3..691d3d7 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -279,7 +279,7 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
     J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+	-drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From 0dfc32ad7d73702218b8fdb383bd7aac86c389a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:07 +0000
Subject: [PATCH 17/84] fix: tell a new event handler about all frame trees and
 the layer tree

---
 src/core/Environment.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 34733d2..78db395 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -186,8 +186,20 @@ void Environment::addEventHandler(EventHandler *handler)
     //set root node
     handler->receive( Event( event::ROOT, event::ADD, getRootNode() ) );
     
-    //iterate over frame tree
+    //iterate over the frame trees, the one of the root node first
     publishChilds(handler, getRootNode());    
+    std::vector<FrameNode*> frameNodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frameNodes.begin(); it != frameNodes.end(); it++)
+    {
+	if( *it != getRootNode() && !getParent(*it) )
+	    publishChilds(handler, *it);
+    }
+
+    //publish the relations between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
 
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
-- 
2.43.0


From 38e79fc0bb566b8e9f1b6ef6acc9ad8242f56caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:07 +0000
Subject: [PATCH 18/84] fix: tell a removed event handler that all relations
 are gone

---
 src/core/Environment.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 78db395..fbbecda 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -236,8 +236,25 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
-    //reverse iterate over the frame node tree and detach all children    
-    detachChilds(getRootNode(), handler);
+    //reverse iterate over the frame node trees and detach all children and maps
+    std::vector<FrameNode*> frameNodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frameNodes.begin(); it != frameNodes.end(); it++)
+    {
+	if( !getParent(*it) )
+	{
+	    detachChilds(*it, handler);
+
+	    std::list<CartesianMap*> maplist = getMaps(*it);
+	    for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++)
+		handler->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, *it ) );
+	}
+    }
+
+    //remove the relations between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
     
     //remove root node
     handler->receive( Event( event::ROOT, event::REMOVE, getRootNode() ) );
-- 
2.43.0


From 46182afb2a667e518b6828fcd9adc758da1cf9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:07 +0000
Subject: [PATCH 19/84] fix: report the removal of a layer relation only when
 it was there

---
 src/core/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index fbbecda..e45bbfe 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -493,14 +493,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From 14aad506d20eb3bdb30a08559a4138e15d708b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:07 +0000
Subject: [PATCH 20/84] fix: allow to remove the filter of an event handler

---
 src/core/EventHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..ade55d5 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -24,7 +24,8 @@ void EventHandler::receive( const Event& message )
 void EventHandler::setFilter( EventFilter* filter ) 
 { 
     this->filter = filter; 
-    filter->setHandler( this );
+    if( filter )
+	filter->setHandler( this );
 }
 
 void EventDispatcher::itemAttached(EnvironmentItem *item) {}
-- 
2.43.0


From ec1608766aa4d9b763428715528642b04bdceb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:58 +0000
Subject: [PATCH 21/84] fix: keep the contents of an item that is removed and
 added again in an event queue

---
 src/core/Event.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..68b8166 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,6 +63,15 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
+    // an item which is removed and added again may have changed in between, so
+    // that together they are an update
+    if( operation == event::ADD && other.operation == event::REMOVE
+	&& type == event::ITEM && other.type == event::ITEM && id_a == other.id_a && id_b == other.id_b )
+    {
+	operation = event::UPDATE;
+	return event::INVALIDATE;
+    }
+
     // adding and removing will cancel each other, if the events are otherwise the same
     if( ((operation == event::REMOVE && other.operation == event::ADD)
         || (operation == event::ADD && other.operation == event::REMOVE))
-- 
2.43.0


From 94aa656c974f23f9b88416487451f232220b06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:16 +0000
Subject: [PATCH 22/84] fix: do not report the modification of a missing item
 when applying an update

---
 src/core/Event.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index 68b8166..be9ff21 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -140,6 +140,8 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -151,8 +153,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 2d20ee64ccb3c4f0676dbdc1fcf62feb5147bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:50 +0000
Subject: [PATCH 23/84] fix: context updates for queued copies of items

---
 src/core/Serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..42718c3 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -867,7 +867,7 @@ void SynchronizationEventHandler::process(const envire::Event& message)
 	    // we might actually be working on a copy of the original item
 	    // in case the event got queued. For this reason, try to get the
 	    // original item back
-	    if( !item ) 
+	    if( !item || !item->isAttached() ) 
 		item = m_env->getItem( message.id_a ).get();
 
 	    // in case we have a cartesian map, also provide the full framenode
-- 
2.43.0


From a257b749067e2650d417262dfbfd73f6f3382e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:50 +0000
Subject: [PATCH 24/84] fix: do not truncate the properties of large items in
 binary events

---
 src/core/Serialization.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 42718c3..517212e 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -756,6 +756,13 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     return item;
 }
 
+static int appendToBuffer(void* data, unsigned char* buffer, size_t size)
+{
+    std::vector<uint8_t>* properties = static_cast<std::vector<uint8_t>*>(data);
+    properties->insert(properties->end(), buffer, buffer + size);
+    return 1;
+}
+
 bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBinaryEvent& bin_item)
 {
     assert(item);
@@ -767,10 +774,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
-    bin_item.yamlProperties.resize(10000,0);
-    size_t size_written = 0;
-    yaml_emitter_set_output_string(&yamlSerialization->emitter, reinterpret_cast<unsigned char*>(bin_item.yamlProperties.data()),
-                                   bin_item.yamlProperties.size(), &size_written);
+    yaml_emitter_set_output(&yamlSerialization->emitter, &appendToBuffer, &bin_item.yamlProperties);
     
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
@@ -790,7 +794,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // write yaml document to yaml stream
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-    bin_item.yamlProperties.resize(size_written,0);
     
     // fill binary streams
     for(std::map<std::string, std::stringstream*>::iterator it = stringstreams.begin(); it != stringstreams.end(); it++)
-- 
2.43.0


From 0130f4fa4c734261dd4138392df70be50bd5a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:50 +0000
Subject: [PATCH 25/84] fix: do not cut the first letter off the name of an
 unknown class

---
 src/core/SerializationFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/SerializationFactory.cpp b/src/core/SerializationFactory.cpp
index 178e317..f3b2834 100644
--- a/src/core/SerializationFactory.cpp
+++ b/src/core/SerializationFactory.cpp
@@ -27,7 +27,8 @@ EnvironmentItem* SerializationFactory::createObject( const std::string& classNam
 	f = classMap[className];
     else 
     {
-	std::string name = className.substr( className.rfind("::") + 2 );
+	size_t pos = className.rfind("::");
+	std::string name = pos == std::string::npos ? className : className.substr( pos + 2 );
 	if( classMap.count( name ) )
 	    f = classMap[name];
     }
-- 
2.43.0


From 4b64b4bd4965017ec209550e85b691c447010112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 26/84] fix: coordinates far outside of a grid are not in its
 first cell

---
 src/maps/GridBase.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..6acb056 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,10 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // compare before converting to integers, because coordinates that are
+    // far outside would overflow
+    const double am = floor((x-offsetx)/scalex);
+    const double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +417,10 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    const double am = floor(((x-offsetx)/scalex)*multiplier);
+    const double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if(0 <= am && am < (cellSizeX * multiplier) && 0 <= an && an < (cellSizeY * multiplier))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From 4abc7ffe655057a0e700e763a390c58bbfb3066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 27/84] fix: the extents of a grid end with its last cell

---
 src/maps/GridBase.cpp | 2 +-
 src/maps/GridBase.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 6acb056..f6aabcf 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -493,7 +493,7 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( (int)cellSizeX - 1, (int)cellSizeY - 1 ) );
 }
 
 template<typename T>
diff --git a/src/maps/GridBase.hpp b/src/maps/GridBase.hpp
index 118eeb4..72e0e16 100644
--- a/src/maps/GridBase.hpp
+++ b/src/maps/GridBase.hpp
@@ -243,7 +243,8 @@ namespace envire
 
 	/** return the extents of the subset of the grid, which 
 	 * for which the cells contain data. The base implementation is
-	 * to return the cellsSize values. Override since this is used to
+	 * to return all the cells of the grid. The maximum is the index of the
+	 * last cell. Override since this is used to
 	 * calculate the return value for getExtents. 
 	 */
 	virtual CellExtents getCellExtents() const; 
-- 
2.43.0


From 8498d6c5cc4dc64211702d63eb7c278f8c3b163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 28/84] fix: visit the border of small inner rectangles

---
 src/maps/GridBase.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index f6aabcf..9def895 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -148,15 +148,9 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(upRight_g, upLeft_g, leftIn);
         lineBresenham(upLeft_g, downLeft_g, leftIn);
 
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-        lineBresenham(upLeftOut, downLeftOut, leftOut);
-
         //points of right side
         lineBresenham(upRight_g, downRight_g, rightIn);
         lineBresenham(downRight_g, downLeft_g, rightIn);
-
-        lineBresenham(upRightOut, downRightOut, rightOut);
-        lineBresenham(downRightOut, downLeftOut, rightOut);
     }
     else
     {
@@ -164,12 +158,25 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(downRight_g, upRight_g, leftIn);
         lineBresenham(upRight_g, upLeft_g, leftIn);
 
-        lineBresenham(downRightOut, upRightOut, leftOut);
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-
         //points of right side
         lineBresenham(downRight_g, downLeft_g, rightIn);
         lineBresenham(downLeft_g, upLeft_g, rightIn);
+    }
+
+    // the top corner of the outer rectangle can be another one, if the inner
+    // rectangle is too small for telling
+    if(upRightOut.y > downRightOut.y)
+    {
+        lineBresenham(upRightOut, upLeftOut, leftOut);
+        lineBresenham(upLeftOut, downLeftOut, leftOut);
+
+        lineBresenham(upRightOut, downRightOut, rightOut);
+        lineBresenham(downRightOut, downLeftOut, rightOut);
+    }
+    else
+    {
+        lineBresenham(downRightOut, upRightOut, leftOut);
+        lineBresenham(upRightOut, upLeftOut, leftOut);
 
         lineBresenham(downRightOut, downLeftOut, rightOut);
         lineBresenham(downLeftOut, upLeftOut, rightOut);
-- 
2.43.0


From 5d58bc3716bf4eb9e446e3c3a7225430087356e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 29/84] fix: grids that are whole cells apart are cell aligned,
 rotated ones are not

---
 src/maps/GridBase.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 9def895..7c620f3 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -608,16 +608,25 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
         getScaleY() != grid.getScaleY() )
 	return false;
 
-    // see if the difference of the world position of the 0 grid cells is a
-    // multiple of the cell scale
-    Eigen::Vector3d rootDiff = 
-	fromGrid( 0, 0, getEnvironment()->getRootNode() )
-	 -grid.fromGrid( 0, 0, grid.getEnvironment()->getRootNode() );
-    Eigen::Vector3d cellDiff = 
-	(rootDiff.array() * Eigen::Array3d( 1.0/getScaleX(), 1.0/getScaleY(), 0 )).matrix();
-
-    if( !(cellDiff.cast<int>().cast<double>() - cellDiff).isZero() )
-	return false;
+    // see if the cells at the corners are a whole number of cells away from
+    // where they are in the other grid, and by the same number of cells
+    const Transform tf = getEnvironment()->relativeTransform(this, &grid);
+    const Eigen::Array2d scale( getScaleX(), getScaleY() );
+    Eigen::Array2d first;
+    for( int i=0; i<3; i++ )
+    {
+	const Eigen::Array2d cell( i == 1 ? getCellSizeX() : 0, i == 2 ? getCellSizeY() : 0 );
+	const Eigen::Vector3d p = tf * Eigen::Vector3d( 
+		cell.x() * getScaleX() + getOffsetX(), cell.y() * getScaleY() + getOffsetY(), 0 );
+	const Eigen::Array2d cellDiff = 
+	    (p.head<2>().array() - Eigen::Array2d( grid.getOffsetX(), grid.getOffsetY() )) / scale - cell;
+
+	if( i == 0 )
+	    first = Eigen::Array2d( rint( cellDiff.x() ), rint( cellDiff.y() ) );
+
+	if( !(cellDiff - first).matrix().isZero( 1e-6 ) )
+	    return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 2f44be860f1ea3f148f3ecbc6b65f62854742dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 30/84] fix: measure the misalignment of grids in cells

---
 src/maps/GridBase.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 7c620f3..76aac98 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -635,16 +635,23 @@ bool GridBase::isAlignedWith(GridBase const& grid) const
 {
     if (getCellSizeX() != grid.getCellSizeX() ||
         getCellSizeY() != grid.getCellSizeY() ||
+        getScaleX() != grid.getScaleX() ||
+        getScaleY() != grid.getScaleY() ||
         getOffsetX() != grid.getOffsetX() ||
         getOffsetY() != grid.getOffsetY())
         return false;
 
     Transform tf = getEnvironment()->relativeTransform(this, &grid);
-    base::Vector3d p(grid.getCellSizeX(), grid.getCellSizeY(), 0);
-    p = tf * p;
-    if (rint(p.x()) != grid.getCellSizeX() ||
-            rint(p.y()) != grid.getCellSizeY())
-        return false;
+    for (int i = 0; i < 4; ++i)
+    {
+        const base::Vector3d p(
+                ((i & 1) ? getSizeX() : 0) + getOffsetX(),
+                ((i & 2) ? getSizeY() : 0) + getOffsetY(), 0);
+        const base::Vector3d error = tf * p - p;
+        if (fabs(error.x()) >= 0.5 * getScaleX() ||
+                fabs(error.y()) >= 0.5 * getScaleY())
+            return false;
+    }
 
     return true;
 }
-- 
2.43.0


From e570e7d4198dd24d744cfd0107f5e7f42f23b32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 31/84] fix: the maximum of a grid with negative values only

---
 src/maps/Grid.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..8ea8a9f 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -179,7 +179,12 @@ namespace envire
         void getMinMaxValues( const std::string& key, T& min, T& max )
         {
             min = std::numeric_limits<T>::max();
-            max = std::numeric_limits<T>::min();
+            max = std::numeric_limits<T>::lowest();
+            if( std::numeric_limits<T>::has_infinity )
+            {
+                min = std::numeric_limits<T>::infinity();
+                max = -std::numeric_limits<T>::infinity();
+            }
 
             ArrayType& a = getGridData( key );
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
-- 
2.43.0


From 7a762962ad195c35ce523ef9f47e21c3e4a690f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:47 +0000
Subject: [PATCH 32/84] fix: refuse to copy bands between grids of different
 size

---
 src/maps/Grid.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 8ea8a9f..dba2030 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -306,7 +306,7 @@ namespace envire
          * _target_band of this map
          *
          * @throw std::bad_cast if the source grid is not of the same cell type
-         * than this grid
+         * than this grid and std::runtime_error if it is not of the same size
          */
         void copyBandFrom(GridBase const& _source, std::string const& source_band, std::string const& _target_band = "")
         {
@@ -315,6 +315,9 @@ namespace envire
             if (_target_band.empty())
                 target_band = source_band;
 
+            if (source.getCellSizeX() != getCellSizeX() || source.getCellSizeY() != getCellSizeY())
+                throw std::runtime_error("cannot copy a band between grids of different size");
+
             getGridData(target_band) = source.getGridData(source_band);
             std::pair<T, bool> no_data = source.getNoData(source_band);
             if (no_data.second)
-- 
2.43.0


From e15d9a6f16fc175cc9138ca68aa05b48e3e15ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 33/84] fix: a traversability class with a drivability is set

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..1a024e4 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From f4af00195b2082e26e652b0ecf3dd9986a7b2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 34/84] fix: a drivability has to be a number

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 1a024e4..088bf6e 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -18,7 +18,7 @@ public:
      * */
     TraversabilityClass(double drivability) : drivability(drivability)
     {
-        if(drivability < 0 || drivability >= 1.000001)
+        if(!(drivability >= 0 && drivability < 1.000001))
         {
             throw std::runtime_error("TraversabilityClass: Error, drivability must be in range [0,1]");
         }
-- 
2.43.0


From c845d5fa11c2832355ed9eb272f06a059a957d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 35/84] fix: the statistic of the traversability class 255

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 src/maps/TraversabilityGrid.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..cfe6e42 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 088bf6e..8eb168b 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,8 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        minDistance.resize(std::numeric_limits<uint8_t>::max() + 1, std::numeric_limits<double>::max());
+        counts.resize(std::numeric_limits<uint8_t>::max() + 1);
     }
 
     /**
-- 
2.43.0


From 7ba4c8d4c75fd4045831ba47846cf13b608ec717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 36/84] fix: refuse the traversability of a cell of an unknown
 class

---
 src/maps/TraversabilityGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index cfe6e42..6692de9 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -167,7 +167,7 @@ void TraversabilityGrid::setTraversability(uint8_t klass, size_t x, size_t y)
 const TraversabilityClass& TraversabilityGrid::getTraversability(size_t x, size_t y) const
 {
     setTraversabilityArray();
-    return traversabilityClasses[(*traversabilityArray)[y][x]];
+    return getTraversabilityClass((*traversabilityArray)[y][x]);
 }
 
 bool TraversabilityGrid::registerNewTraversabilityClass(uint8_t& retId, const TraversabilityClass& klass)
-- 
2.43.0


From 9d816a170249208174a4cec28082788f8c8f26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 37/84] fix: copies of traversability grids shared their cells
 with the original

---
 src/maps/TraversabilityGrid.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 8eb168b..8be444b 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -152,6 +152,13 @@ public:
     {
     };
 
+    // the cached arrays are those of the other grid
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other),
+                        traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From 97d6ce3505fa8adbe7dcf1df80eca2bca038f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 38/84] fix: the distances of the cells of small rectangles

---
 src/maps/TraversabilityGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 6692de9..d18955f 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -35,7 +35,8 @@ public:
     {
         if(!lut)
             lut = new RadialLookUpTable();
-        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY));
+        //the cells of small rectangles are up to two cells from the center
+        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY) + 2 * grid.getScaleX());
 
         if(!boxLut)
             boxLut = new BoxLookUpTable();
-- 
2.43.0


From fbffd8f7d686f937172d6b61a7ed86efb92b159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 39/84] fix: placeholders of traversability classes were read
 back as classes

---
 src/maps/TraversabilityGrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index d18955f..4ff80d3 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -252,7 +252,9 @@ void TraversabilityGrid::serialize(Serialization& so)
     so.write<size_t>(std::string("drivabilityClassCount"), traversabilityClasses.size());
     for(size_t i = 0; i < traversabilityClasses.size(); i++)
     {
-        so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
+        //placeholders are left out, or they are read back as classes
+        if(traversabilityClasses[i].isSet())
+            so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
     }
     envire::Grid< uint8_t >::serialize(so);
 }
-- 
2.43.0


From 947a27e9dcb2adb011e50399abc40135e163d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 40/84] fix: distances of the cells of thin borders

---
 src/maps/TraversabilityGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 4ff80d3..c8df46a 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -42,7 +42,8 @@ public:
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
         //of the roation. Else we get aliasing problems.
-        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2);
+        //the cells at the border reach out of it by part of a cell
+        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2 + std::max(scaleX, scaleY));
 
         grid.toGrid(pose.position.x(), pose.position.y(), xCenter, yCenter);
     }
-- 
2.43.0


From 44e357a6ed4f5b5f96b974cd0dce6a78e22e0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 41/84] fix: slopes at the border of an elevation grid

---
 src/maps/ElevationGrid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.cpp b/src/maps/ElevationGrid.cpp
index 10b00d9..58ca8e8 100644
--- a/src/maps/ElevationGrid.cpp
+++ b/src/maps/ElevationGrid.cpp
@@ -16,8 +16,11 @@ Eigen::Vector3d envire::ElevationGrid::getNormal(const envire::GridBase::Positio
     size_t m = pos.x, n = pos.y;
 
     const ArrayType &grid( getGridData( ELEVATION ) );
-    double slope_x = (grid[n][m-1] - grid[n][m+1]) / (getScaleX()*2.0);
-    double slope_y = (grid[n-1][m] - grid[n+1][m]) / (getScaleY()*2.0);
+    // there is no neighbour on the other side of the cells at the border
+    const size_t m0 = m > 0 ? m-1 : m, m1 = m + 1 < getCellSizeX() ? m+1 : m;
+    const size_t n0 = n > 0 ? n-1 : n, n1 = n + 1 < getCellSizeY() ? n+1 : n;
+    double slope_x = m1 > m0 ? (grid[n][m0] - grid[n][m1]) / (getScaleX()*(m1-m0)) : 0.0;
+    double slope_y = n1 > n0 ? (grid[n0][m] - grid[n1][m]) / (getScaleY()*(n1-n0)) : 0.0;
 
     return Eigen::Vector3d( slope_x, slope_y, 1.0 ).normalized();
 }
-- 
2.43.0


From 66a6b5c9d5c2b676c6c59ee075b419ff28a15ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 42/84] fix: cells of an elevation grid were looked up as
 coordinates

---
 src/maps/ElevationGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.hpp b/src/maps/ElevationGrid.hpp
index 5d04039..ba31c3a 100644
--- a/src/maps/ElevationGrid.hpp
+++ b/src/maps/ElevationGrid.hpp
@@ -36,10 +36,10 @@ namespace envire
         { return Grid<double>::get(ELEVATION, x, y); }
 
         double& get( const Position& pos )
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         double get( const Position& pos ) const
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         Eigen::Vector3d getNormal( const Position& pos ) const;
 
-- 
2.43.0


From fd7ccc42f2616e820729f6e3791485c3716d7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 43/84] fix: an interval overlaps one that it is inside of

---
 src/maps/MLSPatch.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..596fb5e 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -12,8 +12,7 @@ template <class T>
 inline bool overlap( T a1, T a2, T b1, T b2 )
 {
     return 
-	((a1 < b2) && (a2 > b2)) ||
-	((a1 < b1) && (a2 > b1));
+	(a1 < b2) && (a2 > b1);
 }
 
 
-- 
2.43.0


From af176c57236a89403c856c05dd400a0bac12c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 44/84] fix: the spread of summed measurements depended on
 their height

---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 596fb5e..a4070be 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -79,7 +79,7 @@ struct SurfacePatch
         if( n > 1 )
         {
             float var = 
-                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*(plane.n - 2.0))) * norm - n/plane.n));
+                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*plane.n)) * norm - n/plane.n));
             stdev = sqrt(var);
         }
         else
-- 
2.43.0


From 8614817ad75e521d675fa958a7c7c1ff03e0e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 45/84] fix: cutting patches by negative ones made them longer
 or of negative height

---
 src/maps/MLSPatch.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index a4070be..8aef565 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -315,16 +315,17 @@ struct SurfacePatch
 		    {
 			// the new patch fully encloses the old one, 
 			// so will overwrite it
-			if( ro.mean > rp.mean && ro.mean - ro.height < rp.mean - rp.height )
+			if( ro.mean >= rp.mean && ro.mean - ro.height <= rp.mean - rp.height )
 			{
 			    p = ro;
 			    return true; 
 			} 
 
 			// the other patch is occupied, so cut
-			// the free patch accordingly
+			// the free patch accordingly. There is nothing to
+			// cut if it is only close.
 			if( ro.mean < rp.mean )
-			    rp.height = rp.mean - ro.mean;
+			    rp.height = std::min( rp.height, rp.mean - ro.mean );
 			else if( ro.mean - ro.height < rp.mean )
 			{
 			    double new_mean = ro.mean - ro.height;
-- 
2.43.0


From 3383c38ae1d18a619b7170df0af019be2a7aba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 46/84] fix: the index of a copied MLS grid was that of its
 former content

---
 src/maps/MLSGrid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..f27f8ab 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -42,6 +42,8 @@ MLSGrid::MLSGrid(const MLSGrid& other)
     , cellcount( other.cellcount )
     , extents( other.extents )
 {
+    if( other.index )
+	initIndex();
 }
 
 MLSGrid& MLSGrid::operator=(const MLSGrid& other)
@@ -54,6 +56,9 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
+
+	if( index || other.index )
+	    initIndex();
     }
 
     return *this;
-- 
2.43.0


From 577b75985188dedab76ad8d9aad50b2f5cc83214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 47/84] fix: patch count, index and extents of a moved MLS grid

---
 src/maps/MLSGrid.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index f27f8ab..5b1fb05 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -767,5 +767,20 @@ void MLSGrid::initIndex()
 void MLSGrid::move(int x, int y)
 {
     cells.move(x, y);
+
+    // the cells in use are other ones now, and there can be less of them
+    cellcount = 0;
+    extents = CellExtents();
+    if( index )
+	index->reset();
+
+    for(size_t xi=0;xi<cellSizeX;xi++)
+    {
+	for(size_t yi=0;yi<cellSizeY;yi++)
+	{
+	    for( iterator it = beginCell(xi,yi); it != endCell(); it++ )
+		addCell( Position( xi, yi ) );
+	}
+    }
 }
 
-- 
2.43.0


From 0a10863e39bd64e9c336fbdcdbb3c5c59abda5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 48/84] fix: sample splines by the size of a cell, not the
 number of cells

---
 src/maps/MLSGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 5b1fb05..0825a41 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -109,7 +109,7 @@ base::geometry::Spline3 MLSGrid::projectSplineOnSurface(double startHeight, cons
 {
     //sample the spline in a resolution four times higher than the
     //cell size.
-    std::vector<base::Vector3d> points = spline.sample(this->getCellSizeX()/4.0);
+    std::vector<base::Vector3d> points = spline.sample(std::min(getScaleX(), getScaleY())/4.0);
     double lastHeight = startHeight;
     size_t x, y;
     for(std::vector<base::Vector3d>::iterator it = points.begin(); it != points.end(); it++)
-- 
2.43.0


From bc62d1c65412fbe294617523767c9809846a90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 49/84] fix: reading an MLS grid again counted its patches
 twice

---
 src/maps/MLSGrid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0825a41..44af85a 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -171,7 +171,12 @@ void MLSGrid::unserialize(Serialization& so)
     else
 	config.useColor = false;
 
+    // what has been there before is replaced
     cells.resize( cellSizeX, cellSizeY );
+    cellcount = 0;
+    extents = CellExtents();
+    if( index )
+	index->reset();
 
     // this is a workaround to make the MLS generatable by 
     // the GridBase::create method, which sets the map_count
-- 
2.43.0


From 140a7dbaef1f0f30a8c905657c4ad42c1c41a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 50/84] fix: keep gap size and thickness of a stored MLS grid

---
 src/maps/MLSGrid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 44af85a..54ea7ed 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -153,6 +153,8 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "hasCellColor", config.useColor );
     long updateModelInt = static_cast<long>( config.updateModel );
     so.write( "updateModel", updateModelInt );
+    so.write( "gapSize", config.gapSize );
+    so.write( "thickness", config.thickness );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -166,6 +168,10 @@ void MLSGrid::unserialize(Serialization& so)
 	so.read( "updateModel", updateModelInt );
 	config.updateModel = static_cast<MLSConfiguration::update_model>( updateModelInt );
     }
+    if( so.hasKey( "gapSize" ) )
+	so.read( "gapSize", config.gapSize );
+    if( so.hasKey( "thickness" ) )
+	so.read( "thickness", config.thickness );
     if( so.hasKey( "hasCellColor" ) )
 	so.read( "hasCellColor", config.useColor );
     else
-- 
2.43.0


From 08d8c309f4e1b5832ae8bdef0e9f139613b73bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 51/84] fix: merging a grid at another height in the sum models

---
 src/maps/MLSGrid.cpp  |  2 +-
 src/maps/MLSPatch.hpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 54ea7ed..42e0126 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -626,7 +626,7 @@ void MLSGrid::merge( const MLSGrid& other, const Eigen::Affine3d& other2this, co
 	    for(envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); cit != other.endCell(); cit++ )
 	    {
 		SurfacePatch meas_patch( *cit );
-		meas_patch.mean += offset.mean + mappos.z();
+		meas_patch.translateZ( offset.mean + mappos.z() );
 		meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 		meas_patch.update_idx = offset.update_idx;
 
diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 8aef565..aa1ff4c 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -413,6 +413,21 @@ struct SurfacePatch
         normsq *= pow( factor, 2 );
     }
 
+    /**
+     * @brief move the patch and all the evidence it is made of vertically
+     * @param dz distance to move
+     */
+    void translateZ( float dz )
+    {
+        mean += dz;
+        min += dz;
+        max += dz;
+        plane.zz += dz * (2.0f * plane.z + dz * plane.n);
+        plane.xz += dz * plane.x;
+        plane.yz += dz * plane.y;
+        plane.z += dz * plane.n;
+    }
+
     float getMean() const
     {
 	return mean;
-- 
2.43.0


From 4f5f2023bd0b9df44eb4ec9e78f2822480f0c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 52/84] fix: matching MLS grids ignored the difference in
 height

---
 src/maps/MLSGrid.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 42e0126..4ae061e 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -656,13 +656,13 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 	{
 	    // get center of cell and transform position
 	    // to this grid
-	    Eigen::Vector3d pos( Eigen::Vector3d::Zero() );
-	    other.fromGrid( it->x, it->y, pos.x(), pos.y() );
-	    pos = other2this * pos;
+	    Eigen::Vector3d mappos( Eigen::Vector3d::Zero() );
+	    other.fromGrid( it->x, it->y, mappos.x(), mappos.y() );
+	    mappos = other2this * mappos;
 
 	    // if it is still valid in this grid get cell position
 	    size_t m, n;
-	    if( toGrid( pos.x(), pos.y(), m, n ) )
+	    if( toGrid( mappos.x(), mappos.y(), m, n ) )
 	    {
 		Position pos(m, n);
 		// iterate through cells in source map
@@ -672,7 +672,7 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 		    while( cit != other.endCell() )
 		    {
 			SurfacePatch meas_patch( *cit );
-			meas_patch.mean += offset.mean;
+			meas_patch.mean += offset.mean + mappos.z();
 			meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 			meas_patch.update_idx = offset.update_idx;
 
-- 
2.43.0


From 6ec503311e5c14ede465ce411b2d0bcffd752fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 53/84] fix: lookup in an MLSMap used outdated transforms and
 removed grids

The cached grid and transform of the last successful lookup were used even
after the grid was moved, removed from the map or destroyed.
---
 src/maps/MLSMap.cpp | 10 ----------
 src/maps/MLSMap.hpp | 12 ------------
 2 files changed, 22 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ec6bccf..46f0e05 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -85,23 +85,13 @@ inline bool getPatch( MLSGrid* grid, const Transform& C_m2g, const Point& p, MLS
 
 bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_threshold )
 {
-    // see if we can use the cache. This will reduce the amount of transform
-    // calculations
-    if( cache.grid )
-	if( ::getPatch( cache.grid, cache.trans, p, patch, sigma_threshold ) )
-	    return true;
-
     // go backwards in the list, and try to find the point in any of the grids
     for( std::vector<MLSGrid::Ptr>::reverse_iterator it = grids.rbegin(); it != grids.rend(); it++ )
     {
 	MLSGrid *grid( it->get() );
 	Transform C_m2g = env->relativeTransform( getFrameNode(), grid->getFrameNode() );
 	if( ::getPatch( grid, C_m2g, p, patch, sigma_threshold ) )
-	{
-	    cache.grid = it->get();
-	    cache.trans = C_m2g;
 	    return true;
-	}
     }
     return false;
 }
diff --git a/src/maps/MLSMap.hpp b/src/maps/MLSMap.hpp
index 806bd47..99d16e9 100644
--- a/src/maps/MLSMap.hpp
+++ b/src/maps/MLSMap.hpp
@@ -71,18 +71,6 @@ public:
     // also add a framenode per grid
     std::vector<MLSGrid::Ptr> grids;
     MLSGrid::Ptr active;
-
-protected:
-    struct Cache
-    {
-     public:
-        EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-	Cache() : grid( NULL ) {}
-	MLSGrid* grid;
-	Transform trans;
-    };
-
-    Cache cache;
 };
 
 }
-- 
2.43.0


From d035fc8a2f2fb4baa1453c95a34c8a8fcfb0653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 54/84] fix: selecting the active grid ignored the aligned
 parameter

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 46f0e05..7301d97 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -128,7 +128,7 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     else
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
-	createGrid( t, true, true );
+	createGrid( t, true, aligned );
     }
 }
 
-- 
2.43.0


From 7ae1bd8161323b44f89e517e770560e5850d4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 55/84] fix: selecting a grid of an MLSMap without grids
 crashed

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 7301d97..ddcbf19 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -125,7 +125,7 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     {
 	active = best_grid;
     }
-    else
+    else if( active )
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
 	createGrid( t, true, aligned );
-- 
2.43.0


From 0dc3ac05f4d5a126bffd4379af1a0330bcfdf8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 56/84] fix: deep copies of an MLSMap without grids crashed

---
 src/maps/MLSMap.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ddcbf19..688aa45 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -169,16 +169,19 @@ MLSMap* MLSMap::cloneDeep()
     {
 	// create a copy of the currently active map
 	// and reference the others
-	MLSGrid* active_clone = active->clone();
-	active_clone->setUniqueId( getUniqueIdPrefix() + "/" );
-	std::vector<MLSGrid::Ptr>::iterator it = 
-	    std::find( res->grids.begin(), res->grids.end(), active );
+	if( active )
+	{
+	    MLSGrid* active_clone = active->clone();
+	    active_clone->setUniqueId( getUniqueIdPrefix() + "/" );
+	    std::vector<MLSGrid::Ptr>::iterator it = 
+		std::find( res->grids.begin(), res->grids.end(), active );
 
-	assert( it != res->grids.end() );
-	*it = active_clone;
-	res->active = active_clone;
+	    assert( it != res->grids.end() );
+	    *it = active_clone;
+	    res->active = active_clone;
 
-	env->setFrameNode( active_clone, active->getFrameNode() );
+	    env->setFrameNode( active_clone, active->getFrameNode() );
+	}
 	
 	env->attachItem( res );
 
-- 
2.43.0


From dc296695d1f83f8f609c775de7c0b4044f030424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 57/84] fix: a deep copy of an MLSMap was placed at the root
 frame

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 688aa45..e41db0e 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -183,7 +183,7 @@ MLSMap* MLSMap::cloneDeep()
 	    env->setFrameNode( active_clone, active->getFrameNode() );
 	}
 	
-	env->attachItem( res );
+	env->attachItem( res, getFrameNode() );
 
 	typedef std::vector<MLSGrid::Ptr>::iterator iterator;
 	for( iterator it = res->grids.begin(); it != res->grids.end(); it++ )
-- 
2.43.0


From 4a62a3dbdf27572bdc9173e7325eb9cd709d98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 58/84] fix: copying an MLSMap lost the data of the layer

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index e41db0e..2c78aed 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -27,7 +27,7 @@ MLSMap::MLSMap()
 }
 
 MLSMap::MLSMap(const MLSMap& other)
-    : grids( other.grids ), active( other.active )
+    : Map<2>( other ), grids( other.grids ), active( other.active )
 {
 }
 
-- 
2.43.0


From 477b056242de43625e350244f69039405d897cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 59/84] fix: merging MLS grids in reverse shifted the heights
 the wrong way

---
 src/operators/MergeMLS.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index f27cdab..3801d00 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -115,7 +115,10 @@ bool MergeMLS::updateAll()
 			for( MLSGrid::iterator cit = input->beginCell(s_pos.x, s_pos.y); cit != input->endCell(); cit++ )
 			{
 			    MLSGrid::SurfacePatch p( *cit );
-			    p.mean += src_pos.z();
+			    // the patch in terms of the output
+			    Eigen::Vector3d target_pos = transforms[t].inverse( Eigen::Isometry )
+				* Eigen::Vector3d( src_pos.x(), src_pos.y(), p.mean );
+			    p.translateZ( target_pos.z() - p.mean );
 
 			    output->updateCell( m, n, p );
 			}
-- 
2.43.0


From 1707490bc5dcd01f7ed2695672fcab82fd7bf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 60/84] fix: merging MLS grids moved only the mean of the
 patches

---
 src/operators/MergeMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index 3801d00..15ff557 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -67,7 +67,7 @@ bool MergeMLS::updateAll()
 			MLSGrid::Position t_pos;
 			if( output->toGrid( target_pos.head<2>(), t_pos ) )
 			{
-			    p.mean = target_pos.z();
+			    p.translateZ( target_pos.z() - p.mean );
 			    output->updateCell( t_pos.x, t_pos.y, p );
 			}
 		    }
-- 
2.43.0


From 65d29bd5aa7e5335bf4d01e622f0b0b0625e052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 61/84] fix: MLSToGrid accepted grids which mismatch in one
 dimension

It then wrote beyond the end of the output.
---
 src/operators/MLSToGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index f1bc13e..62569d4 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -36,9 +36,9 @@ bool MLSToGrid::updateAll()
     Grid<double>& travGrid = *env->getOutput< Grid<double>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From d8a0c690b9aa30c7cc5772a6422e0e5343432f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 62/84] fix: MLSSlope accepted grids which mismatch in one
 dimension

It then wrote beyond the end of the output.
---
 src/operators/MLSSlope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 0028e7e..e502b09 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -73,9 +73,9 @@ bool MLSSlope::updateAll()
     Grid<float>& travGrid = *env->getOutput< Grid<float>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From fab09a32790fb96e771f440b2a734a9001655788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 63/84] fix: GridFloatToMLS used the inverse of the transform

---
 src/operators/GridFloatToMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2d99a33..8907960 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -49,7 +49,7 @@ void GridFloatToMLS::setOutput( MLSGrid* mls )
 template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
-    Transform mls2grid = grid->getEnvironment()->relativeTransform( grid, mls );
+    Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
     
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
-- 
2.43.0


From 1288eb797c5b6860b400a4af0a533e4f16e88a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:51 +0000
Subject: [PATCH 64/84] fix: GridFloatToMLS looked up cell corners instead of
 centers

---
 src/operators/GridFloatToMLS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 8907960..dc2debf 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -59,10 +59,11 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
-        double y = mls->getScaleY() * yi + mls->getOffsetY();
         for (size_t xi = 0; xi < mls->getCellSizeX(); ++xi)
         {
-            double x = mls->getScaleX() * xi + mls->getOffsetX();
+            // the center of the cell
+            double x, y;
+            mls->fromGrid(xi, yi, x, y);
             Eigen::Vector3d src_p = mls2grid * Eigen::Vector3d(x, y, 0);
             size_t src_xi, src_yi;
             if (!grid->toGrid(src_p.x(), src_p.y(), src_xi, src_yi))
-- 
2.43.0


From 6c143522bc82d8a53e3bdf34d76ab504496be5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:18 +0000
Subject: [PATCH 65/84] fix: GridFloatToMLS ignored the difference in height of
 the frames

---
 src/operators/GridFloatToMLS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index dc2debf..0eab60d 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -70,7 +70,9 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
-            mls->updateCell(xi, yi, value, 0);
+            // the value is a height in the frame of the grid
+            Eigen::Vector3d p = mls2grid.inverse(Eigen::Isometry) * Eigen::Vector3d(src_p.x(), src_p.y(), value);
+            mls->updateCell(xi, yi, p.z(), 0);
         }
     }
 }
-- 
2.43.0


From 209c48908ef6c711611f129ec02bc91977388b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:18 +0000
Subject: [PATCH 66/84] fix: MLSToPointCloud ignored the frame of the
 pointcloud

The points were always expressed in the root frame, and moved as if the grid
was never tilted.
---
 src/operators/MLSToPointCloud.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/operators/MLSToPointCloud.cpp b/src/operators/MLSToPointCloud.cpp
index afe2ec9..3aa49c3 100644
--- a/src/operators/MLSToPointCloud.cpp
+++ b/src/operators/MLSToPointCloud.cpp
@@ -38,6 +38,8 @@ bool MLSToPointCloud::updateAll()
     if(vertical_distance <= 0.0)
 	vertical_distance = 0.1;
     
+    Transform mls2pc = env->relativeTransform(mls_grid, pointcloud);
+
     // create pointcloud from mls
     for(size_t x=0;x<mls_grid->getCellSizeX();x++)
     {
@@ -46,13 +48,12 @@ bool MLSToPointCloud::updateAll()
 	    for( MLSGrid::iterator cit = mls_grid->beginCell(x,y); cit != mls_grid->endCell(); cit++ )
 	    {
 		MLSGrid::SurfacePatch p( *cit );
-		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, mls_grid->getEnvironment()->getRootNode());
-		Eigen::Vector3d point(cellPosWorld);
+		Eigen::Vector3d point = mls_grid->fromGrid(x, y);
 		
 		if(p.isHorizontal())
 		{
-		    point[2] = cellPosWorld.z() + p.mean;
-		    pointcloud->vertices.push_back(point);
+		    point[2] = p.mean;
+		    pointcloud->vertices.push_back(mls2pc * point);
 		    
 		}
 		else if(p.isVertical())
@@ -61,8 +62,8 @@ bool MLSToPointCloud::updateAll()
 		    float max_z = (float)p.getMaxZ(0);
 		    for(float z = min_z; z <= max_z; z += vertical_distance)
 		    {
-			point[2] = cellPosWorld.z() + z;
-			pointcloud->vertices.push_back(point);
+			point[2] = z;
+			pointcloud->vertices.push_back(mls2pc * point);
 		    }
 		}
 	    }
-- 
2.43.0


From 79439250aa1e597e7fd8d39a6b899fe4d98c6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 67/84] fix: MLSSlope constructors left the window size
 uninitialised

---
 src/operators/MLSSlope.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.hpp b/src/operators/MLSSlope.hpp
index 3ff5d78..e741cd4 100644
--- a/src/operators/MLSSlope.hpp
+++ b/src/operators/MLSSlope.hpp
@@ -33,12 +33,15 @@ namespace envire
             , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev) 
             : corrected_step_threshold(corrected_step_threshold)
-            , use_stddev(use_stddev) {}
+            , use_stddev(use_stddev)
+            , required_measurements_per_patch(0)
+            , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev, 
                  uint32_t required_measurements_per_patch) 
             : corrected_step_threshold(corrected_step_threshold)
             , use_stddev(use_stddev)
-            , required_measurements_per_patch(required_measurements_per_patch) {}
+            , required_measurements_per_patch(required_measurements_per_patch)
+            , window_size(1) {}
 	void serialize( Serialization &so ) { Operator::serialize( so ) ;}
 	void unserialize( Serialization &so ) { Operator::unserialize( so ) ;}
 
-- 
2.43.0


From 449d45cb8544f80702fe22d9457c311beed31454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:11 +0000
Subject: [PATCH 68/84] fix: MLSToGrid and MLSSlope shared their include guard

---
 src/operators/MLSToGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.hpp b/src/operators/MLSToGrid.hpp
index 00dd865..3be8208 100644
--- a/src/operators/MLSToGrid.hpp
+++ b/src/operators/MLSToGrid.hpp
@@ -1,5 +1,5 @@
-#ifndef __ENVIRE__MLS_SLOPE_HPP__
-#define __ENVIRE__MLS_SLOPE_HPP__
+#ifndef __ENVIRE__MLS_TO_GRID_HPP__
+#define __ENVIRE__MLS_TO_GRID_HPP__
 
 #include <envire/Core.hpp>
 #include <envire/maps/Grid.hpp>
-- 
2.43.0


From 393a3dde63db4fee78b653f76438a05f9877295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:46 +0000
Subject: [PATCH 69/84] fix: MLSSlope left out steps to cells of the border

---
 src/operators/MLSSlope.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index e502b09..260bd9e 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -129,7 +129,8 @@ bool MLSSlope::updateAll()
 
     for(size_t x=1;x<width;x++)
     {
-        for(size_t y=1;y<height-1;y++)
+        // the border rows are visited for the steps between them and the inner cells
+        for(size_t y=0;y<height;y++)
         {
             MLSGrid::const_iterator this_cell = 
                 std::max_element( mls.beginCell(x,y), mls.endCell() );
@@ -146,18 +147,21 @@ bool MLSSlope::updateAll()
                 continue;
             }
             
-            updateGradient(mls, use_stddev, angles, diffs, counts, scaley,
-                    BOTTOM_CENTER, x, y, TOP_CENTER, x, y + 1,
-                    this_cell, required_measurements_per_patch);
-            updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
-                    TOP_RIGHT, x, y, BOTTOM_LEFT, x - 1, y - 1,
-                    this_cell, required_measurements_per_patch);
+            if( y + 1 < height )
+                updateGradient(mls, use_stddev, angles, diffs, counts, scaley,
+                        BOTTOM_CENTER, x, y, TOP_CENTER, x, y + 1,
+                        this_cell, required_measurements_per_patch);
+            if( y > 0 )
+                updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
+                        TOP_RIGHT, x, y, BOTTOM_LEFT, x - 1, y - 1,
+                        this_cell, required_measurements_per_patch);
             updateGradient(mls, use_stddev, angles, diffs, counts, scalex,
                     CENTER_RIGHT, x, y, CENTER_LEFT, x - 1, y,
                     this_cell, required_measurements_per_patch);
-            updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
-                    BOTTOM_RIGHT, x, y, TOP_LEFT, x - 1, y + 1,
-                    this_cell, required_measurements_per_patch);            
+            if( y + 1 < height )
+                updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
+                        BOTTOM_RIGHT, x, y, TOP_LEFT, x - 1, y + 1,
+                        this_cell, required_measurements_per_patch);
               
             numeric::PlaneFitting<double> fitter;
             int count = 0;
-- 
2.43.0


From c67cb4a5c819dcf0624dfbe33ec66521dc771ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 70/84] fix: negative information of a projection into an empty
 grid was projected again

---
 src/operators/MLSProjection.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 461598f..e94dbd2 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -54,9 +54,10 @@ void MLSProjection::unsetAreaOfInterest()
 void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceGrid* grid, envire::Pointcloud* pc )
 {
     // create a new grid with the same dimensions in case the given grid is not
-    // empty
+    // empty. Negative information is put into cells of the given grid while
+    // going through those of the pointcloud, so these need to be kept apart.
     boost::intrusive_ptr<envire::MultiLevelSurfaceGrid> t_grid;
-    if( !grid->empty() )
+    if( !grid->empty() || m_negativeInformation )
     {
 	t_grid = new MultiLevelSurfaceGrid( 
 		grid->getWidth(), grid->getHeight(), grid->getScaleX(), grid->getScaleY(), grid->getOffsetX(), grid->getOffsetY() );
-- 
2.43.0


From ff481464218463aaa2f4b7a38b76fa3453fd57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 71/84] fix: projecting a coloured pointcloud into a grid in
 use lost the colours

---
 src/operators/MLSProjection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index e94dbd2..754f84b 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -69,6 +69,8 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
     // make sure we are recording the cell positions in a set
     t_grid->initIndex();
     projectPointcloud( t_grid.get(), pc );
+    if( t_grid->getHasCellColor() )
+	grid->setHasCellColor( true );
 
     Eigen::Affine3d C_g2m( C_m2g.getTransform().inverse( Eigen::Isometry ) );
 
-- 
2.43.0


From aadda09888d5e4c2079baded71c986b07c1e2ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:18 +0000
Subject: [PATCH 72/84] fix: the colour of a new surface patch was left
 uninitialised

---
 src/maps/MLSPatch.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index aa1ff4c..60d25b4 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -55,6 +55,7 @@ struct SurfacePatch
 	update_idx(0), 
 	type(type) 
 	{
+	    color[0] = color[1] = color[2] = 0;
 	    plane.n = 1.0/pow(stdev,2);
 	    plane.z = mean * plane.n;
 	    plane.zz = pow(mean,2) * plane.n;
@@ -69,6 +70,7 @@ struct SurfacePatch
 	update_idx(0),
 	type( HORIZONTAL )
 	{
+	    color[0] = color[1] = color[2] = 0;
 	    updatePlane();
 	};
 
-- 
2.43.0


From 1ffa071d8e76dd8f84387a96aab64a1e0b03040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 73/84] fix: grown obstacles did not get their probability

---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..b698298 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -413,7 +413,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 				&& ty >= 0 && ty < (int)map.getHeight() )
                         {
 			    data[ty][tx] = CLASS_OBSTACLE;
-                            probabilityArray[y][x] = std::numeric_limits< uint8_t >::max();
+                            probabilityArray[ty][tx] = std::numeric_limits< uint8_t >::max();
                         }
 		    }
 		}
-- 
2.43.0


From 7acada092e7beb2b0492221f2a000a446e95cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:30 +0000
Subject: [PATCH 74/84] fix: the obstacle clearance of SimpleTraversability was
 not stored

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index b698298..97067fe 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -52,6 +52,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -73,6 +74,8 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    if (so.hasKey("obstacle_clearance"))
+        so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 5e92d2ab49ecb5bdf8b4434f89c1afee24732726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 75/84] fix: SimpleTraversability read outside of inputs of
 another size

---
 src/operators/SimpleTraversability.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 97067fe..1a10bd4 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -163,6 +163,14 @@ bool SimpleTraversability::updateAll()
     //    throw std::runtime_error("a max_step band is available, but the ground clearance is set to zero");
 
     int width = output_layer->getWidth(), height = output_layer->getHeight();
+
+    for (int i = 0; i < INPUT_COUNT; ++i)
+    {
+        if (input_layers[i] && 
+                (input_layers[i]->getWidth() != output_layer->getWidth() || input_layers[i]->getHeight() != output_layer->getHeight()))
+            throw std::runtime_error("SimpleTraversability: mismatching width and/or height between input and output");
+    }
+
     for (int y = 0; y < height; ++y)
     {
         for (int x = 0; x < width; ++x)
-- 
2.43.0


From b66be6fad861b6a24cd92ebc078b250201049a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 76/84] fix: SimpleTraversability kept classes of an earlier
 update

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 1a10bd4..54e45ca 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -193,6 +193,9 @@ bool SimpleTraversability::updateAll()
                 }
             }
 
+            // unknown, unless the inputs tell otherwise
+            result[y][x] = CLASS_UNKNOWN;
+
             bool has_slope = has_value[SLOPE],
                  has_max_step    = has_value[MAX_STEP];
 
-- 
2.43.0


From 782bc91da3b6c763ddc6a068ba2010ae492737ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 77/84] fix: SimpleTraversability failed with less than five
 classes

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 54e45ca..7f1a1dc 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -273,8 +273,8 @@ bool SimpleTraversability::updateAll()
         }
     }
 
-    // Traversability class 7 contains the mean driveability (0.55).
-    double mean_driveability = output_layer->getTraversabilityClass(7).getDrivability();
+    // The mean driveability of the classes (0.55 for ten classes).
+    double mean_driveability = (1.0 + 1.0 / conf.class_count) / 2;
     uint8_t mean_class_value = counter == 0 ? 0 : sum_classes / counter + 0.5;
     
     // If the map is completely unkown or full with obstacles, 
-- 
2.43.0


From 66f73fce2ad104c3182b106cf5fa4b1a0b77a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 78/84] fix: TraversabilityGrowClasses reported failure on
 success

---
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 405dc2f..4d30569 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -100,5 +100,5 @@ bool envire::TraversabilityGrowClasses::updateAll()
 
     growTerrains(*grid, *gridOut);
     
-    return envire::Operator::updateAll();
+    return true;
 }
-- 
2.43.0


From 3685ee4955f304a7b0da12e1bab67655124e56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 79/84] fix: TraversabilityGrowClasses accepted an output of
 another shape

---
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 4d30569..488adcd 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -31,7 +31,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
     TraversabilityGrid::ArrayType& trDataOut = mapOut.getGridData(TraversabilityGrid::TRAVERSABILITY);
     TraversabilityGrid::ArrayType& probDataOut = mapOut.getGridData(TraversabilityGrid::PROBABILITY);
 
-    if(trDataIn.num_elements() != trDataOut.num_elements())
+    if(mapIn.getCellSizeX() != mapOut.getCellSizeX() || mapIn.getCellSizeY() != mapOut.getCellSizeY())
         throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
 
     memcpy(trDataOut.data(), trDataIn.data(), sizeof(uint8_t) * trDataIn.num_elements());
-- 
2.43.0


From 092d22c4daf3e07ac344af39f63c582190e30f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 80/84] fix: TraversabilityGrowClasses looked up classes which
 are not registered

---
 src/operators/TraversabilityGrowClasses.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 488adcd..716acf9 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -61,7 +61,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
                 continue;
             
             uint8_t classNumber = trDataIn[y][x];
-            TraversabilityClass curClass(classes[classNumber]);
+            TraversabilityClass curClass(mapIn.getTraversabilityClass(classNumber));
 
             //grow all object in the radius
             for( int oy = -wy; oy <= wy; ++oy )
@@ -74,9 +74,8 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
                             && tx >= 0 && tx < (int)mapIn.getCellSizeX()
                             && ty >= 0 && ty < (int)mapIn.getCellSizeY() )
                     {
-                        TraversabilityClass otherClass(classes[trDataOut[ty][tx]]);
                         if((mapOut.getProbability(tx, ty) <= 0.0001)
-                           || (otherClass.getDrivability() > curClass.getDrivability()))
+                           || (mapIn.getTraversabilityClass(trDataOut[ty][tx]).getDrivability() > curClass.getDrivability()))
                         {
                             trDataOut[ty][tx] = classNumber;
                             mapOut.setProbability(curProbability, tx, ty);
-- 
2.43.0


From 7a6a3af9d753543ef02f470a3f6ef5cff5f61a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 81/84] fix: TraversabilityGrassfire reported failure on
 success

---
 src/operators/TraversabilityGrassfire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 396aa5f..4f0f071 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -465,5 +465,5 @@ bool envire::TraversabilityGrassfire::updateAll()
     std::cout << "totalCnt " << totalCnt << std::endl;
     std::cout << "drivable " << drivable << std::endl;*/
         
-    return envire::Operator::updateAll();
+    return true;
 }
-- 
2.43.0


From 161770f0c69659d33cdb8d6b99442684755ce201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 82/84] fix: TraversabilityGrassfire took the wrong height of
 the start patch

---
 src/operators/TraversabilityGrassfire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 4f0f071..f82cfa7 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -268,7 +268,7 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
                     SurfacePatch *curPatch = getNearestPatchWhereRobotFits(newX, newY, startPos.z(), isObstacle);
                     if(curPatch)
                     {
-                        double curHeightDiff = fabs(startPos.z() - curPatch->getMean() + curPatch->getStdev());
+                        double curHeightDiff = fabs(startPos.z() - (curPatch->getMean() + curPatch->getStdev()));
                         if(curHeightDiff < bestHeightDiff)
                         {
                             bestMatchingPatch = curPatch;
-- 
2.43.0


From d240f070e59d6487d37db96318f73fd983d145aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 83/84] fix: TraversabilityGrassfire ignored the height of the
 map

---
 src/operators/TraversabilityGrassfire.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index f82cfa7..4d574e8 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -226,6 +226,9 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
     if(!mlsGrid->toGrid(startPos, startX, startY, mlsGrid->getEnvironment()->getRootNode()))
         return false;
 
+    //heights of the patches are in the frame of the map
+    startPos = mlsGrid->getEnvironment()->relativeTransform(mlsGrid->getEnvironment()->getRootNode(), mlsGrid->getFrameNode()) * startPos;
+
     
     //make shure temp maps have correct size
     bestPatchMap.resize(boost::extents[mlsGrid->getCellSizeY()][mlsGrid->getCellSizeX()]);
-- 
2.43.0


From 8521037e29bdbf74ea54227c911d4cbaccba6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:53 +0000
Subject: [PATCH 84/84] fix: TraversabilityGrassfire wrote outside of outputs
 of another size

---
 src/operators/TraversabilityGrassfire.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 4d574e8..0fa7b10 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -435,6 +435,9 @@ bool envire::TraversabilityGrassfire::updateAll()
         throw std::runtime_error("TraversabilityGrassfire: no output band set");
 
     
+    if(mlsGrid->getCellSizeX() != trGrid->getCellSizeX() || mlsGrid->getCellSizeY() != trGrid->getCellSizeY())
+        throw std::runtime_error("TraversabilityGrassfire: mismatching width and/or height between input and output");
+
     trData = &(trGrid->getGridData(TraversabilityGrid::TRAVERSABILITY));
 
     //register classes in traversability map
-- 
2.43.0

