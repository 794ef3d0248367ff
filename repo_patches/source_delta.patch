From cb8db3434a59b7a674b31aa0991346119f57fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:19 +0000
Subject: [PATCH 01/45] fix: setting a permanent force no longer reads outside
 _maxId nor discards permanent forces of higher ids

---
 core/ForceContainerParallel.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..33d3e65 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,14 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) {
+    // permanent forces/torques: not per-thread data; never shrink, which would discard values already set
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
-- 
2.43.0


From f46c753b5794651161034635b3ed1e14e032da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:20 +0000
Subject: [PATCH 02/45] fix: unsynchronized force/torque read past the end of
 the permanent forces for ids beyond it

---
 core/ForceContainerParallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 33d3e65..c5276b3 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -138,7 +138,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -147,7 +147,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From 13334a220ef0bca1f07222323fdd48e441185c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:52 +0000
Subject: [PATCH 03/45] fix: body iterator dereferenced the end of the
 container when advancing past the last body

---
 core/BodyContainer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.hpp b/core/BodyContainer.hpp
index 71037b2..196c4a0 100644
--- a/core/BodyContainer.hpp
+++ b/core/BodyContainer.hpp
@@ -39,7 +39,7 @@ class BodyContainer: public Serializable{
 			ContainerT::iterator end;
 			smart_iterator& operator++() {
 				ContainerT::iterator::operator++();
-				while (!(this->operator*()) && end!=(*this)) ContainerT::iterator::operator++();
+				while (end!=(*this) && !(this->operator*())) ContainerT::iterator::operator++();
 				return *this;}
 			smart_iterator operator++(int) {smart_iterator temp(*this); operator++(); return temp;}
 			smart_iterator& operator=(const ContainerT::iterator& rhs) {ContainerT::iterator::operator=(rhs); return *this;}
-- 
2.43.0


From 58ca85b7498aec90ccb64e91f177b7c0edca407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:52 +0000
Subject: [PATCH 04/45] fix: insertAtId read past the body vector before
 checking the candidate id

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..a4604ff 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,7 +28,7 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
-- 
2.43.0


From 7181c720ee0bea1fb6cbcb8207954f0c0a4333db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:52 +0000
Subject: [PATCH 05/45] fix: erasing a body id out of range read outside the
 body vector

---
 core/BodyContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index a4604ff..d4c1902 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -39,7 +39,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
-- 
2.43.0


From dc8ad18409653aa15e620e31bda2b94080cd0494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:58 +0000
Subject: [PATCH 06/45] fix: purging the contact of a deleted body left a stale
 entry in the other body's contacts

---
 core/InteractionContainer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..62aa0fc 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -67,14 +67,10 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 			assert(linIx==linPos);
 			//erase from body, we also erase from linIntrs below
 			b1->intrs.erase(I);
-			if (b2) { 
-				Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
-				if (not(I2==b2->intrs.end())) { 
-					b2->intrs.erase(I2); 
-				}
-			}
 		}
 	}
+	// b2 refers to the interaction also if b1 has been deleted (and possibly replaced) meanwhile
+	if (b2) b2->intrs.erase(id1);
 	if(linIx<0) {
 		LOG_ERROR("InteractionContainer::erase: attempt to delete interaction with a deleted body (the definition of linPos in the call to erase() should fix the problem) for  ##"+boost::lexical_cast<string>(id1)+"+"+boost::lexical_cast<string>(id2));
 		return false;}
-- 
2.43.0


From fc2628233fca3f8f3847ca0b5caf8ee759ba903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:58 +0000
Subject: [PATCH 07/45] fix: a refused contact insertion left the contact
 registered in one of the bodies

---
 core/InteractionContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 62aa0fc..64ec072 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -26,7 +26,7 @@ bool InteractionContainer::insert(const shared_ptr<Interaction>& i){
 	const shared_ptr<Body>& b2=(*bodies)[id2];
 	
 	if(!b1->intrs.insert(Body::MapId2IntrT::value_type(id2,i)).second) return false; // already exists
-	if(!b2->intrs.insert(Body::MapId2IntrT::value_type(id1,i)).second) return false; 
+	if(!b2->intrs.insert(Body::MapId2IntrT::value_type(id1,i)).second) { b1->intrs.erase(id2); return false; }
 	
 	linIntrs.resize(++currSize); // currSize updated
 	linIntrs[currSize-1]=i; // assign last element
-- 
2.43.0


From 6b0d9e761a93d166544629c74a9df73954f485ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:07 +0000
Subject: [PATCH 08/45] fix: shear stiffness of non-spherical elastic contacts
 was left at zero and overwrote the normal one

---
 pkg/dem/Ip2_ElastMat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ip2_ElastMat.cpp b/pkg/dem/Ip2_ElastMat.cpp
index 88a446c..8109de2 100644
--- a/pkg/dem/Ip2_ElastMat.cpp
+++ b/pkg/dem/Ip2_ElastMat.cpp
@@ -56,7 +56,7 @@ void Ip2_ElastMat_ElastMat_NormShearPhys::go( const shared_ptr<Material>& b1
 		Ks = 2*Ea*Ra*Va*Eb*Rb*Vb/(Ea*Ra*Va+Eb*Rb*Vb);
 	} else {
 		Kn = 2*Ea*Eb/(Ea+Eb);
-		Kn = 2*Ea*Va*Eb*Vb/(Ea*Va+Eb*Vb);
+		Ks = 2*Ea*Va*Eb*Vb/(Ea*Va+Eb*Vb);
 	}
 	phys->kn = Kn;
 	phys->ks = Ks;
-- 
2.43.0


From b7572defd311bd54c2b68a0ebb82213aa47b9961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 09/45] fix: tracked rotational energy of aspherical bodies
 used the inertia rotated the wrong way

---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..e6a3aee 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -52,7 +52,7 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	if(b->isAspherical()){
 		Matrix3r mI; mI<<state->inertia[0],0,0, 0,state->inertia[1],0, 0,0,state->inertia[2];
 		Matrix3r T(state->ori);
-		Erot=.5*b->state->angVel.transpose().dot((T.transpose()*mI*T)*b->state->angVel);
+		Erot=.5*b->state->angVel.transpose().dot((T*mI*T.transpose())*b->state->angVel);
 	} else { Erot=0.5*state->angVel.dot(state->inertia.cwiseProduct(state->angVel)); }
 	if(!kinSplit) scene->energy->add(Etrans+Erot,"kinetic",kinEnergyIx,/*non-incremental*/true);
 	else{ scene->energy->add(Etrans,"kinTrans",kinEnergyTransIx,true); scene->energy->add(Erot,"kinRot",kinEnergyRotIx,true); }
-- 
2.43.0


From 19611b2ec2c042f9a30ae3c1b7b28f50299197a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:58 +0000
Subject: [PATCH 10/45] fix: aspherical bodies excluded by the integrator's
 mask were still rotated

---
 pkg/dem/NewtonIntegrator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index e6a3aee..54ce30c 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -258,8 +258,10 @@ void NewtonIntegrator::leapfrogAsphericalRotate(State* state, const Body::id_t&
 	Vector3r angVel_b_half = l_b_half.cwiseQuotient(state->inertia); // local angular velocity at time n+1/2
 	if (densityScaling) angVel_b_half*=state->densityScaling;
 	const Quaternionr dotQ_half=DotQ(angVel_b_half,Q_half); // dQ/dt at time n+1/2
-	state->ori=Quaternionr(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
-	state->angVel=state->ori*angVel_b_half; // global angular velocity at time n+1/2
+	const Quaternionr Q_next(state->ori.coeffs()+dt*dotQ_half.coeffs()); // Q at time n+1
+	state->angVel=Q_next*angVel_b_half; // global angular velocity at time n+1/2
+	if ((mask>0) and !(Body::byId(id)->maskCompatible(mask))) return; // velocities are updated, but the body does not rotate
+	state->ori=Q_next;
 
 	if(scene->forces.getMoveRotUsed() && scene->forces.getRot(id)!=Vector3r::Zero()) {
 		Vector3r r(scene->forces.getRot(id));
-- 
2.43.0


From 29af1b7856f27bc20a74b576cadba6921ed37ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:31 +0000
Subject: [PATCH 11/45] fix: contact point of a sphere inside a box ignored the
 periodic shift

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 24a1884..57b5520 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -81,8 +81,8 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		 *
 		 *
 		 */
-		pt1 = se32.position+normal*minCBoxDist;
-		pt2 = se32.position-normal*s->radius;
+		pt1 = se32.position+shift2+normal*minCBoxDist;
+		pt2 = se32.position+shift2-normal*s->radius;
 		Vector3r normal = pt1-pt2; normal.normalize();
 		bool isNew=!c->geom;
 		if (isNew) scm = shared_ptr<ScGeom>(new ScGeom());
-- 
2.43.0


From e81a8bcc10a17941b499910e57b1e5356e9dd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:17 +0000
Subject: [PATCH 12/45] fix: bounding box of a sphere in a cell sheared in
 three planes did not contain the sphere

---
 pkg/common/Bo1_Aabb.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..8897ff6 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -21,14 +21,9 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 	}
 	// adjust box size along axes so that sphere doesn't stick out of the box even if sheared (i.e. parallelepiped)
 	if(scene->cell->hasShear()) {
-		Vector3r refHalfSize(halfSize);
-		const Vector3r& cos=scene->cell->getCos();
-		for(int i=0; i<3; i++){
-			//cerr<<"cos["<<i<<"]"<<cos[i]<<" ";
-			int i1=(i+1)%3,i2=(i+2)%3;
-			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
-			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
-		}
+		// extent of the sphere in the coordinates of the unsheared cell
+		const Matrix3r& unshear=scene->cell->getUnshearTrsf();
+		for(int i=0; i<3; i++) halfSize[i]*=unshear.row(i).norm();
 	}
 	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
-- 
2.43.0


From cfbae0a4a7e9ec022f1d2551ce83ad5e5ff2606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:01 +0000
Subject: [PATCH 13/45] fix: collider read cleared bounds when the body
 container had shrunk

The bounds of all bodies were dropped, but only those above the previous number of bodies were added again.
---
 pkg/common/InsertionSortCollider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..d2608e6 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -213,7 +213,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
-- 
2.43.0


From 3ae49a373540e7a61204214e1fa1ac39e7bbbfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:01 +0000
Subject: [PATCH 14/45] fix: collider missed overlaps of bodies that get a
 bound after having had none

A body inserted at the id of an erased one, or bounded after the first sort, sits in the sorted
bounds already, so that its overlaps involve no inversion.
---
 pkg/common/InsertionSortCollider.cpp | 6 ++++++
 pkg/common/InsertionSortCollider.hpp | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index d2608e6..9740179 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -263,6 +263,12 @@ void InsertionSortCollider::action(){
 		boundDispatcher->updatingDispFactor=updatingDispFactor;
 		boundDispatcher->action();
 		ISC_CHECKPOINT("boundDispatcher");
+		// a body which gets a bound at a place where it had none (inserted at a free id, or bounded later) may overlap others without any inversion
+		for(long i=0; i<2*nBodies && !doInitSort; i++){
+			if(BB[0][i].flags.hasBB) continue;
+			const shared_ptr<Body>& b=Body::byId(BB[0][i].id,scene);
+			if(b && b->bound) doInitSort=true;
+		}
 
 		
 		// STRIDE
diff --git a/pkg/common/InsertionSortCollider.hpp b/pkg/common/InsertionSortCollider.hpp
index 258a63d..8fd39fb 100644
--- a/pkg/common/InsertionSortCollider.hpp
+++ b/pkg/common/InsertionSortCollider.hpp
@@ -86,7 +86,7 @@ class InsertionSortCollider: public Collider{
 		int period;
 		//! is it the minimum (true) or maximum (false) bound?
 		struct {bool hasBB:true, isMin:true;} flags;
-		Bounds(Real coord_, Body::id_t id_, bool isMin): coord(coord_), id(id_), period(0){ flags.isMin=isMin; }
+		Bounds(Real coord_, Body::id_t id_, bool isMin): coord(coord_), id(id_), period(0){ flags.hasBB=true; flags.isMin=isMin; }
 		bool operator<(const Bounds& b) const {
 			/* handle special case of zero-width bodies, which could otherwise get min/max swapped in the unstable std::sort */
 			if(id==b.id && coord==b.coord) return flags.isMin;
-- 
2.43.0


From 9d1df4a2e32477572544149ae4beb407164f6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:01 +0000
Subject: [PATCH 15/45] fix: virtual interactions of deleted bodies were kept
 as long as their last bounds overlapped

---
 pkg/common/InsertionSortCollider.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/InsertionSortCollider.hpp b/pkg/common/InsertionSortCollider.hpp
index 8fd39fb..3cc22e6 100644
--- a/pkg/common/InsertionSortCollider.hpp
+++ b/pkg/common/InsertionSortCollider.hpp
@@ -158,6 +158,7 @@ class InsertionSortCollider: public Collider{
 	public:
 	//! Predicate called from loop within InteractionContainer::erasePending
 	bool shouldBeErased(Body::id_t id1, Body::id_t id2, Scene* rb) const {
+		if(!Body::byId(id1,rb) || !Body::byId(id2,rb)) return true; // body deleted
 		if(!periodic) return !spatialOverlap(id1,id2);
 		else { Vector3i periods; return !spatialOverlapPeri(id1,id2,rb,periods); }
 	}
-- 
2.43.0


From fac8c069147b959477bc489299ae59818f32e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:41 +0000
Subject: [PATCH 16/45] fix: virtual periodic interactions kept a period in
 which the bounds no longer overlap

When two bodies go from overlapping in one period to overlapping in another one between two
collider runs, the interaction was kept with the old period and the contact was never detected.
---
 pkg/common/InsertionSortCollider.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.hpp b/pkg/common/InsertionSortCollider.hpp
index 3cc22e6..4b60d24 100644
--- a/pkg/common/InsertionSortCollider.hpp
+++ b/pkg/common/InsertionSortCollider.hpp
@@ -160,7 +160,17 @@ class InsertionSortCollider: public Collider{
 	bool shouldBeErased(Body::id_t id1, Body::id_t id2, Scene* rb) const {
 		if(!Body::byId(id1,rb) || !Body::byId(id2,rb)) return true; // body deleted
 		if(!periodic) return !spatialOverlap(id1,id2);
-		else { Vector3i periods; return !spatialOverlapPeri(id1,id2,rb,periods); }
+		Vector3i periods;
+		if(!spatialOverlapPeri(id1,id2,rb,periods)) return true;
+		// the overlap may be through another period than the one for which the interaction was created
+		const shared_ptr<Interaction>& I=rb->interactions->find(id1,id2);
+		if(!I) return false;
+		for(int axis=0; axis<3; axis++){
+			if(periods[axis]==I->cellDist[axis]) continue;
+			const Real dim=rb->cell->getSize()[axis], shift=I->cellDist[axis]*dim, tol=overlapTolerance*dim;
+			if(minima[3*id2+axis]+shift>maxima[3*id1+axis]+tol || maxima[3*id2+axis]+shift<minima[3*id1+axis]-tol) return true;
+		}
+		return false;
 	}
 	virtual bool isActivated();
 
-- 
2.43.0


From d6db4aa9c59964f3ed6c789bdc7e9d39f36cf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:49 +0000
Subject: [PATCH 17/45] fix: collider missed overlaps of a body inserted at the
 id of an erased one

The sorted bounds of the previous body with that id were reused as if the body had moved, or the
bounds had been sorted already, without any inversion.
---
 core/BodyContainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index d4c1902..ff1c7a2 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -34,6 +34,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
+	scene->interactions->dirty=true; // the collider holds bounds of the body which had this id before
   body[b->id] = b; 
 	return b->id;
 }
-- 
2.43.0


From 2d4bced89c1c0023155fc00bafd635f29b80cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:37 +0000
Subject: [PATCH 18/45] fix: functor dispatched for a pair of classes depended
 on the pairs dispatched before

Functors inherited from base classes are cached in the dispatch matrix and were then taken for
functors declared for that pair when looking up derived classes, giving another functor or an
ambiguity.
---
 lib/multimethods/DynLibDispatcher.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/multimethods/DynLibDispatcher.hpp b/lib/multimethods/DynLibDispatcher.hpp
index ae09e32..a8f4d65 100644
--- a/lib/multimethods/DynLibDispatcher.hpp
+++ b/lib/multimethods/DynLibDispatcher.hpp
@@ -102,6 +102,7 @@ class DynLibDispatcher
 	typedef typename Matrix< BaseClassList >::Result MatrixType;
 	typedef typename Matrix< BaseClassList >::ResultInt MatrixIntType;
 	MatrixType callBacks;        // multidimensional matrix that stores functors ( 1D, 2D, 3D, 4D, ....)
+	MatrixType declared;         // 2D: the functors that were added, without those found for derived classes (cached in callBacks)
 	MatrixIntType callBacksInfo; // multidimensional matrix for extra information about functors in the matrix
 	                             // currently used to remember if it is reversed functor
 
@@ -115,6 +116,7 @@ class DynLibDispatcher
 		  
 		void clearMatrix() {
 			callBacks.clear();
+			declared.clear();
 			callBacksInfo.clear();
 		}
 
@@ -232,6 +234,10 @@ class DynLibDispatcher
 			callBacksInfo.resize( maxCurrentIndex1+1 );
 			for( Iterator2 ci = callBacks.begin() ; ci != callBacks.end() ; ++ci )
 				ci->resize(maxCurrentIndex2+1);
+			declared.resize( maxCurrentIndex1+1 );
+			for( Iterator2 ci = declared.begin() ; ci != declared.end() ; ++ci )
+				ci->resize(maxCurrentIndex2+1);
+			declared[index1][index2] = executor;
 			for( IteratorInfo2 cii = callBacksInfo.begin() ; cii != callBacksInfo.end() ; ++cii )
 				cii->resize(maxCurrentIndex2+1);
 	
@@ -239,6 +245,7 @@ class DynLibDispatcher
 			{
 				callBacks	[index2][index1] = executor;
 				callBacks	[index1][index2] = executor;
+				declared	[index2][index1] = executor;
 				
 				string order		= baseClassName1 + " " + baseClassName2;
 				string reverseOrder	= baseClassName2 + " " + baseClassName1;
@@ -339,7 +346,7 @@ class DynLibDispatcher
 					if(ix2<0) maxDp2=dp2;
 					if(ix1<0 || ix2<0) continue; // hierarchy height exceeded in either dimension
 					distTooBig=false;
-					if(callBacks[ix1][ix2]){
+					if(declared[ix1][ix2]){
 						if(foundIx1!=-1 && callBacks[foundIx1][foundIx2]!=callBacks[ix1][ix2]){ // we found a callback, but there already was one at this distance and it was different from the current one
 							cerr<<__FILE__<<":"<<__LINE__<<": ambiguous 2d dispatch ("<<"arg1="<<base1->getClassName()<<", arg2="<<base2->getClassName()<<", distance="<<dist<<"), dispatch matrix:"<<endl;
 							dumpDispatchMatrix2D(cerr,"AMBIGUOUS: "); throw runtime_error("Ambiguous dispatch.");
-- 
2.43.0


From 1f75536df4dffc29760361f22a244cf3320f1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:06 +0000
Subject: [PATCH 19/45] fix: interaction loop never erased the interactions its
 collider had not seen

They were queued for erasure at every step, and the queue was never processed.
---
 pkg/common/InteractionLoop.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/common/InteractionLoop.cpp b/pkg/common/InteractionLoop.cpp
index eb4cc18..163f9f9 100644
--- a/pkg/common/InteractionLoop.cpp
+++ b/pkg/common/InteractionLoop.cpp
@@ -165,4 +165,17 @@ void InteractionLoop::action(){
 			if(callbackPtrs[i]!=NULL) (*(callbackPtrs[i]))(callbacks[i].get(),I.get());
 		}
 	}
+	// erase interactions that were not encountered by the collider
+	#ifdef YADE_OPENMP
+	for(auto& ids : eraseAfterLoopIds)
+	#else
+	auto& ids=eraseAfterLoopIds;
+	#endif
+	{
+		for(const auto& p : ids){
+			const shared_ptr<Interaction> I=scene->interactions->find(p.first,p.second);
+			if(I) scene->interactions->erase(p.first,p.second,I->linIx);
+		}
+		ids.clear();
+	}
 }
-- 
2.43.0


From fbc0d4bf7985159cfdcf449628189b387d4a4fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 20/45] fix: GlobalStiffnessTimeStepper used an uninitialised
 step for bodies without contacts when viscEl is on

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 6f71cda..0ede8e8 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -39,7 +39,7 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 			}
 		}
 	}
-	Real dt; 
+	Real dt=Mathr::MAX_REAL; // no limit for a body without contacts
 	if(!sdec || stiffness==Vector3r::Zero()){
 		// No interaction on this body, return. If using density scaline fallback to PWaveTimestep-like equation for dt.
 		if (densityScaling) {
-- 
2.43.0


From adfe1bd349f803b3876d63a1d7cc1172741b93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 21/45] fix: GlobalStiffnessTimeStepper wrote through
 unallocated viscosities when viscEl was switched on later

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 0ede8e8..cea815e 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -150,9 +150,9 @@ void GlobalStiffnessTimeStepper::computeStiffnesses(Scene* rb){
 	if(size<rb->bodies->size()){
 		size=rb->bodies->size();
 		stiffnesses.resize(size); Rstiffnesses.resize(size);
-		if (viscEl == true){
-			viscosities.resize(size); Rviscosities.resize(size);
-			}
+	}
+	if (viscEl == true){
+		viscosities.resize(size); Rviscosities.resize(size);
 	}
 	/* reset stored values */
 	memset(& stiffnesses[0],0,sizeof(Vector3r)*size);
-- 
2.43.0


From a1930eb3326bbfacdb22075239091487e96ae4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 22/45] fix: GlobalStiffnessTimeStepper with density scaling
 crashed on bodies without contacts that are not elastic spheres

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index cea815e..0cafbce 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -47,8 +47,10 @@ void GlobalStiffnessTimeStepper::findTimeStepFromBody(const shared_ptr<Body>& bo
 				shared_ptr<ElastMat> ebp=YADE_PTR_DYN_CAST<ElastMat>(body->material);
 				shared_ptr<Sphere> s=YADE_PTR_DYN_CAST<Sphere>(body->shape);
 				if(!ebp || !s) dt=defaultDt;
-				Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
-				dt=s->radius/sqrt(ebp->young/density);
+				else {
+					Real density=body->state->mass/((4/3.)*Mathr::PI*pow(s->radius,3));
+					dt=s->radius/sqrt(ebp->young/density);
+				}
 // 				dt=defaultDt;
 			} else {
 				dt=defaultDt;
-- 
2.43.0


From ae9f6f3362aed29eb7fe588ade691e24fc1b33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:17 +0000
Subject: [PATCH 23/45] fix: GlobalStiffnessTimeStepper took a non-positive
 maxDt as the time step instead of ignoring it

---
 pkg/dem/GlobalStiffnessTimeStepper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.cpp b/pkg/dem/GlobalStiffnessTimeStepper.cpp
index 0cafbce..51407ba 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.cpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.cpp
@@ -137,7 +137,8 @@ void GlobalStiffnessTimeStepper::computeTimeStep(Scene* ncb)
 	}
 	if(densityScaling) (newDt=targetDt);
 	if(computedSomething || densityScaling){
-		previousDt = min ( min(newDt , maxDt), 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
+		if (maxDt>0) newDt = min(newDt,maxDt); // a negative maxDt means no limit
+		previousDt = min ( newDt, 1.05*previousDt );// at maximum, dt will be multiplied by 1.05 in one iterration, this is to prevent brutal switches from 0.000... to 1 in some computations
 		scene->dt=previousDt;
 		computedOnce = true;}
 	else if (!computedOnce) scene->dt=defaultDt;
-- 
2.43.0


From 7b9ee21580f7f96c9d306d38ce5311dbc95a9b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:16 +0000
Subject: [PATCH 24/45] fix: orientation of a clump was wrong when its
 principal axes came out left-handed

---
 core/Clump.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..d50362d 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may form a reflection; make it a rotation
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
@@ -307,6 +308,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may form a reflection; make it a rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
@@ -411,6 +413,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may form a reflection; make it a rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
-- 
2.43.0


From 582c5f82c292359bdc79ea21f1c801e27f3a444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:16 +0000
Subject: [PATCH 25/45] fix: inertia of rotated non-spherical clump members was
 rotated the wrong way

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index d50362d..50af1bd 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -204,7 +204,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 				const Quaternionr& ori = subState->ori;
 				M += m;
 				Sg += m*pos;
-				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori),m,-pos);
+				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori.conjugate()),m,-pos);
 			}
 		}
 	}
-- 
2.43.0


From b926844a1129f151dfa07a36ee68ab83da13806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:16 +0000
Subject: [PATCH 26/45] fix: inertia of the grid cells of an overlapping clump
 lacked the density

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 50af1bd..4452cb6 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -175,7 +175,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 								M += m;
 								Sg += m*x;
 								//inertia I = sum_i( mass_i*dist^2 + I_s) )	//steiners theorem
-								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(dv*pow(dx,2)/6.).asDiagonal())/*I_s/m = d^2: along princial axes of dv; perhaps negligible?*/;
+								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(m*pow(dx,2)/6.).asDiagonal())/*I_s/m = d^2: along princial axes of dv; perhaps negligible?*/;
 								break;
 							}
 						}
-- 
2.43.0


From 39b5c8bcd8f1f7e77bdd163799898a5bb7ebe8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 27/45] fix: breaking a cohesive contact could increase its
 shear force

---
 pkg/dem/CohesiveFrictionalContactLaw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.cpp b/pkg/dem/CohesiveFrictionalContactLaw.cpp
index 005bb3d..8fcea47 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.cpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.cpp
@@ -146,7 +146,7 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 		if (Fs  > maxFs) {//Plasticity condition on shear force
 			if (phys->fragile && !phys->cohesionBroken) {
 				phys->SetBreakingState();
-				maxFs = max((Real) 0, Fn*phys->tangensOfFrictionAngle);
+				maxFs = min(Fs, max((Real) 0, Fn*phys->tangensOfFrictionAngle)); // friction may exceed the trial force if cohesionDisablesFriction
 			}
 			maxFs = maxFs / Fs;
 			Vector3r trialForce=shearForce;
-- 
2.43.0


From ebc6cf29613913e06b74729c0f403eb766ee4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:39 +0000
Subject: [PATCH 28/45] fix: negative cohesion broke cohesive contacts under
 compression instead of making them elastic

---
 pkg/dem/CohesiveFrictionalContactLaw.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.cpp b/pkg/dem/CohesiveFrictionalContactLaw.cpp
index 8fcea47..e91c1b6 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.cpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.cpp
@@ -115,11 +115,12 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 	Real un     = geom->penetrationDepth;
 	Real Fn    = phys->kn*(un-phys->unp);
 
-	if (phys->fragile && (-Fn)> phys->normalAdhesion) {
+	const bool tensileFailure = phys->normalAdhesion>=0 && (-Fn)> phys->normalAdhesion; // negative adhesion: purely elastic
+	if (phys->fragile && tensileFailure) {
 		// BREAK due to tension
 		return false;
 	} else {
-		if ((-Fn)> phys->normalAdhesion) {//normal plasticity
+		if (tensileFailure) {//normal plasticity
 			Fn=-phys->normalAdhesion;
 			phys->unp = un+phys->normalAdhesion/phys->kn;
 			if (phys->unpMax>=0 && -phys->unp>phys->unpMax)  // Actually unpMax should be defined as a function of the average particule sizes for instance
@@ -143,7 +144,7 @@ bool Law2_ScGeom6D_CohFrictPhys_CohesionMoment::go(shared_ptr<IGeom>& ig, shared
 		if (!phys->cohesionDisablesFriction || maxFs==0)
 			maxFs += Fn*phys->tangensOfFrictionAngle;
 		maxFs = std::max((Real) 0, maxFs);
-		if (Fs  > maxFs) {//Plasticity condition on shear force
+		if (phys->shearAdhesion>=0 && Fs  > maxFs) {//Plasticity condition on shear force
 			if (phys->fragile && !phys->cohesionBroken) {
 				phys->SetBreakingState();
 				maxFs = min(Fs, max((Real) 0, Fn*phys->tangensOfFrictionAngle)); // friction may exceed the trial force if cohesionDisablesFriction
-- 
2.43.0


From a80c6b71980ad4c3ed6e820c5911a58b2ce1b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:56 +0000
Subject: [PATCH 29/45] fix: Hertz-Mindlin contacts kept after separation got
 their old shear force and moments back on the next contact

---
 pkg/dem/HertzMindlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/HertzMindlin.cpp b/pkg/dem/HertzMindlin.cpp
index a68c814..9564bd9 100644
--- a/pkg/dem/HertzMindlin.cpp
+++ b/pkg/dem/HertzMindlin.cpp
@@ -264,7 +264,7 @@ bool Law2_ScGeom_MindlinPhys_Mindlin::go(shared_ptr<IGeom>& ig, shared_ptr<IPhys
 	
 	Real uN = scg->penetrationDepth; // get overlapping 
 	if (uN<0) {
-		if (neverErase) {phys->shearForce = phys->normalForce = Vector3r::Zero(); phys->kn=phys->ks=0; return true;}
+		if (neverErase) {phys->shearForce = phys->normalForce = phys->shearElastic = phys->usElastic = phys->usTotal = phys->momentBend = phys->momentTwist = Vector3r::Zero(); phys->kn=phys->ks=0; return true;}
 		else return false;
 	}
 	/* Hertz-Mindlin's formulation (PFC) 
-- 
2.43.0


From eeb08a8b627f94b70ff1e113aa0f31cf3887c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:56 +0000
Subject: [PATCH 30/45] fix: null pointer dereference when only the shear
 coefficient of restitution is given

---
 pkg/dem/HertzMindlin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dem/HertzMindlin.cpp b/pkg/dem/HertzMindlin.cpp
index 9564bd9..b3993eb 100644
--- a/pkg/dem/HertzMindlin.cpp
+++ b/pkg/dem/HertzMindlin.cpp
@@ -74,6 +74,7 @@ void Ip2_FrictMat_FrictMat_MindlinPhys::go(const shared_ptr<Material>& b1,const
 	/* compute viscous coefficients */
 	if(en && betan) throw std::invalid_argument("Ip2_FrictMat_FrictMat_MindlinPhys: only one of en, betan can be specified.");
 	if(es && betas) throw std::invalid_argument("Ip2_FrictMat_FrictMat_MindlinPhys: only one of es, betas can be specified.");
+	if(es && !en) throw std::invalid_argument("Ip2_FrictMat_FrictMat_MindlinPhys: es needs en to be specified as well.");
 
 	// en or es specified, just compute alpha, otherwise alpha remains 0
 	if(en || es){
@@ -581,6 +582,7 @@ void Ip2_FrictMat_FrictMat_MindlinCapillaryPhys::go( const shared_ptr<Material>&
 	/* compute viscous coefficients */
 	if(en && betan) throw std::invalid_argument("Ip2_FrictMat_FrictMat_MindlinCapillaryPhys: only one of en, betan can be specified.");
 	if(es && betas) throw std::invalid_argument("Ip2_FrictMat_FrictMat_MindlinCapillaryPhys: only one of es, betas can be specified.");
+	if(es && !en) throw std::invalid_argument("Ip2_FrictMat_FrictMat_MindlinCapillaryPhys: es needs en to be specified as well.");
 
 	// en or es specified, just compute alpha, otherwise alpha remains 0
 	if(en || es){
-- 
2.43.0


From c55790d3cbf106c2e8385070eb826078cacd9903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 31/45] fix: relative velocity of viscoelastic contacts across
 the boundary of a deforming periodic cell had the wrong sign of the cell's
 contribution

---
 pkg/dem/ViscoelasticCapillarPM.cpp | 2 +-
 pkg/dem/ViscoelasticPM.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/ViscoelasticCapillarPM.cpp b/pkg/dem/ViscoelasticCapillarPM.cpp
index b474198..8c50c26 100644
--- a/pkg/dem/ViscoelasticCapillarPM.cpp
+++ b/pkg/dem/ViscoelasticCapillarPM.cpp
@@ -148,7 +148,7 @@ bool Law2_ScGeom_ViscElCapPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IP
         const Vector3r c1x = (geom.contactPoint - de1.pos);
         const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
         
-        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+        const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
         const auto normalVelocity	= geom.normal.dot(relativeVelocity);
         
         dampCapForceScalar = -phys.dcap * normalVelocity;
diff --git a/pkg/dem/ViscoelasticPM.cpp b/pkg/dem/ViscoelasticPM.cpp
index 61c8091..d6880a8 100644
--- a/pkg/dem/ViscoelasticPM.cpp
+++ b/pkg/dem/ViscoelasticPM.cpp
@@ -108,7 +108,7 @@ bool computeForceTorqueViscEl(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys
 		const Vector3r c1x = (geom.contactPoint - de1.pos);
 		const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
 		
-		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+		const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
 		const Real normalVelocity	= geom.normal.dot(relativeVelocity);
 		const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 		
-- 
2.43.0


From a0697a85a18f29b1b634e208c7a0fa7f524978c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:33 +0000
Subject: [PATCH 32/45] fix: viscoelastic rolling resistance was multiplied by
 the relative spin instead of following its direction

---
 pkg/dem/ViscoelasticPM.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/dem/ViscoelasticPM.cpp b/pkg/dem/ViscoelasticPM.cpp
index d6880a8..1be43a1 100644
--- a/pkg/dem/ViscoelasticPM.cpp
+++ b/pkg/dem/ViscoelasticPM.cpp
@@ -133,8 +133,7 @@ bool computeForceTorqueViscEl(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _phys
 		
 		Vector3r momentResistance = Vector3r::Zero();
 		if (phys.mR>0.0) {
-			const Vector3r relAngVel  = de1.angVel - de2.angVel;
-			relAngVel.normalized();
+			const Vector3r relAngVel  = (de1.angVel - de2.angVel).normalized();
 			
 			if (phys.mRtype == 1) { 
 				momentResistance = -phys.mR*phys.normalForce.norm()*relAngVel;																														// [Zhou1999536], equation (3)
-- 
2.43.0


From 4a5f60d833debcc973e0380de418cae41f63cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:36 +0000
Subject: [PATCH 33/45] fix: relative velocity of Luding contacts across the
 boundary of a deforming periodic cell had the wrong sign of the cell's
 contribution

---
 pkg/dem/LudingPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/LudingPM.cpp b/pkg/dem/LudingPM.cpp
index ecf33fa..e97d6f3 100644
--- a/pkg/dem/LudingPM.cpp
+++ b/pkg/dem/LudingPM.cpp
@@ -183,7 +183,7 @@ bool Law2_ScGeom_LudingPhys_Basic::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys
   const Vector3r c2x = (geom.contactPoint - de2.pos - shift2);
   
   
-  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) + shiftVel;
+  const Vector3r relativeVelocity = (de1.vel+de1.angVel.cross(c1x)) - (de2.vel+de2.angVel.cross(c2x)) - shiftVel;
   const Real normalVelocity	= geom.normal.dot(relativeVelocity);
   const Vector3r shearVelocity	= relativeVelocity-normalVelocity*geom.normal;
 
-- 
2.43.0


From d2798cfc63b18abe29b079423918d2e7d4be1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:18 +0000
Subject: [PATCH 34/45] fix: flipCell: only flip longer axes over shorter ones,
 a negatively sheared cell became degenerate or inverted

---
 pkg/dem/Shop_01.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 31a79a0..181ed6c 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -56,7 +56,9 @@ Matrix3r Shop::flipCell(const Matrix3r& _flip){
 	if(_flip==Matrix3r::Zero()){
 		bool hasNonzero=false;
 		for(int i=0; i<3; i++) for(int j=0; j<3; j++) {
-			if(i==j){ flip(i,j)=0; continue; }
+			// only flip longer axes over shorter ones, flipping both over each other would make the cell degenerate
+			const Real li=hSize.col(i).squaredNorm(), lj=hSize.col(j).squaredNorm();
+			if(i==j || li>lj || (li==lj && i>j)){ flip(i,j)=0; continue; }
 			flip(i,j)=-floor(hSize.col(j).dot(hSize.col(i))/hSize.col(i).dot(hSize.col(i)));
 			if(flip(i,j)!=0) hasNonzero=true;
 		}
-- 
2.43.0


From 7152d5df3b7a3624bdbdadbe7514ef6b44fd9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:23 +0000
Subject: [PATCH 35/45] fix: PeriTriaxController keeps the cell above the
 minimum size (limit is a strain rate, not a velocity)

---
 pkg/dem/PeriIsoCompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/PeriIsoCompressor.cpp b/pkg/dem/PeriIsoCompressor.cpp
index 2ff0c6b..31670bf 100644
--- a/pkg/dem/PeriIsoCompressor.cpp
+++ b/pkg/dem/PeriIsoCompressor.cpp
@@ -184,7 +184,7 @@ void PeriTriaxController::action()
 		// limit maximum strain rate
 		if (std::abs(strain_rate)>maxStrainRate[axis]) strain_rate = Mathr::Sign(strain_rate)*maxStrainRate[axis];
 		// do not shrink below minimum cell size (periodic collider condition), although it is suboptimal WRT resulting stress
-		strain_rate=max(strain_rate,-(cellSize[axis]-2.1*maxBodySpan[axis])/scene->dt);
+		strain_rate=max(strain_rate,-(cellSize[axis]-2.1*maxBodySpan[axis])/(cellSize[axis]*scene->dt));
 
 		// crude way of predicting stress, for steps when it is not computed from intrs
 		if(doUpdate) LOG_DEBUG(axis<<": cellGrow="<<strain_rate*scene->dt<<", new stress="<<stress[axis]<<", new strain="<<strain[axis]);
-- 
2.43.0


From 19bbfea834d1e481027f315e0b8d448482a49818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:23 +0000
Subject: [PATCH 36/45] fix: Peri3dController does not read past the end of its
 paths

---
 pkg/dem/PeriIsoCompressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/PeriIsoCompressor.cpp b/pkg/dem/PeriIsoCompressor.cpp
index 31670bf..3c61b22 100644
--- a/pkg/dem/PeriIsoCompressor.cpp
+++ b/pkg/dem/PeriIsoCompressor.cpp
@@ -294,13 +294,13 @@ void Peri3dController::action(){
 		if (lenPe == 0) { stressBasedSimulation = true; }
 		else {
 			stressBasedSimulation = true;
-			for (int i=0; i<lenPe; i++) { stressBasedSimulation = stressBasedSimulation && PATH_OP_OP(pe(i),1,1)<1e9; }
+			for (int i=0; i<lenPe; i++) { stressBasedSimulation = stressBasedSimulation && PATH_OP_OP(pe(i),pathSizes[pe(i)]-1,1)<1e9; }
 		}
 	}
 
 	// increase the pathCounter by one if we cross to the next part of path
 	for (int i=0; i<6; i++) {
-		if (progress >= PATH_OP_OP(i,pathsCounter[i],0)) { pathsCounter[i]++; }
+		if (pathsCounter[i] < pathSizes[i] && progress >= PATH_OP_OP(i,pathsCounter[i],0)) { pathsCounter[i]++; }
 	}
 
 	/* values of prescribed stress (strain) rate in respect to prescribed path.
-- 
2.43.0


From 472ef0eaee5afe0ec780ccb281d99de593c38d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:06 +0000
Subject: [PATCH 37/45] fix: Peri3dController: strain counts the applied strain
 rate, also when it is limited

---
 pkg/dem/PeriIsoCompressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/PeriIsoCompressor.cpp b/pkg/dem/PeriIsoCompressor.cpp
index 3c61b22..f3e8ba9 100644
--- a/pkg/dem/PeriIsoCompressor.cpp
+++ b/pkg/dem/PeriIsoCompressor.cpp
@@ -346,8 +346,6 @@ void Peri3dController::action(){
 	sigma = Shop::getStress(); // current stress tensor
 	stress = tensor_toVoigt(sigma); // current stress vector
 	stressIdeal += stressRate*dt; // stress that would be obtained if the predictor would be perfect
-	strain += strainRate*dt; // current strain vector
-	epsilon = voigt_toSymmTensor(strain,/*strain=*/true); // current strain tensor
 
 	/* StrainPredictor
 			extremely primitive predictor, but roboust enough and works fine :-) could be replaced by some more rigorous in future.
@@ -388,6 +386,8 @@ void Peri3dController::action(){
 	// correction coefficient ix strainRate.maxstd::abs() > maxStrainRate
 	Real srCorr = (strainRate.cwiseAbs().maxCoeff() > maxStrainRate)? (maxStrainRate/strainRate.cwiseAbs().maxCoeff()):1.;
 	strainRate *= srCorr;
+	strain += strainRate*dt; // current strain vector
+	epsilon = voigt_toSymmTensor(strain,/*strain=*/true); // current strain tensor
 
 	// Actual action (see the documentation for more info)
 	const Matrix3r& trsf=scene->cell->trsf;
-- 
2.43.0


From d42fa6e1c948a89b4a9c2edafad463792f554160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:08 +0000
Subject: [PATCH 38/45] fix: unbalancedForce counts the forces on clump members
 also with gravity

---
 pkg/dem/Shop_01.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 181ed6c..96ed9c4 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -131,7 +131,7 @@ Real Shop::unbalancedForce(bool useMaxForce, Scene* _rb){
 	FOREACH(const shared_ptr<Body>& b, *rb->bodies){
 		if(!b || b->isClumpMember() || !b->isDynamic()) continue;
 		currF=(rb->forces.getForce(b->id)+b->state->mass*gravity).norm();
-		if(b->isClump() && currF==0){ // this should not happen unless the function is called by an engine whose position in the loop is before Newton (with the exception of bodies which really have null force), because clumps forces are updated in Newton. Typical triaxial loops are using such ordering unfortunately (triaxEngine before Newton). So, here we make sure that they will get correct unbalance. In the future, it is better for optimality to check unbalancedF inside scripts at the end of loops, so that this "if" is never active.
+		if(b->isClump() && rb->forces.getForce(b->id)==Vector3r::Zero()){ // this should not happen unless the function is called by an engine whose position in the loop is before Newton (with the exception of bodies which really have null force), because clumps forces are updated in Newton. Typical triaxial loops are using such ordering unfortunately (triaxEngine before Newton). So, here we make sure that they will get correct unbalance. In the future, it is better for optimality to check unbalancedF inside scripts at the end of loops, so that this "if" is never active.
 			Vector3r f(rb->forces.getForce(b->id)),m(Vector3r::Zero());
 			b->shape->cast<Clump>().addForceTorqueFromMembers(b->state.get(),rb,f,m);
 			currF=(f+b->state->mass*gravity).norm();
-- 
2.43.0


From 63483e1436cbf75fca0293e628d5a61b5f9a6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:45 +0000
Subject: [PATCH 39/45] fix: OpenMPArrayAccumulator::resize does not read past
 the old storage of all threads but the first

---
 lib/base/openmp-accu.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 91965ba..5ffec95 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -35,8 +35,8 @@ class OpenMPArrayAccumulator{
 						memcpy(/*dest*/(void*)chunks[th],/*src*/oldChunk,nCL*CLS); // preserve old data
 						free(oldChunk); // deallocate old storage
 					}
-					nCL=nCL_new;
 				}
+				nCL=nCL_new;
 			}
 			// if nCL_new<nCL, do not deallocate memory
 			// if nCL_new==nCL, only update sz
-- 
2.43.0


From b1697471014a1c736be78ec3c19ff6f3f68cbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:45 +0000
Subject: [PATCH 40/45] fix: Subdomain::setMinMax does not crash when its first
 member was erased

---
 core/Subdomain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Subdomain.cpp b/core/Subdomain.cpp
index 21fc742..ab54400 100644
--- a/core/Subdomain.cpp
+++ b/core/Subdomain.cpp
@@ -23,7 +23,7 @@ void Subdomain::setMinMax()
 	Real inf=std::numeric_limits<Real>::infinity();
 	boundsMin=Vector3r(inf,inf,inf); boundsMax=Vector3r(-inf,-inf,-inf);
 	if (ids.size()==0) LOG_WARN("empty subdomain!");
-	if (ids.size()>0 and Body::byId(ids[0],scene)->subdomain != scene->subdomain) LOG_WARN("setMinMax executed with deprecated data (body->subdomain != scene->subdomain)");
+	if (ids.size()>0 and Body::byId(ids[0],scene) and Body::byId(ids[0],scene)->subdomain != scene->subdomain) LOG_WARN("setMinMax executed with deprecated data (body->subdomain != scene->subdomain)");
 	FOREACH(const Body::id_t& id, ids){
 		const shared_ptr<Body>& b = Body::byId(id,scene);
 		if(!b or !b->bound) continue;
-- 
2.43.0


From 2b09fa91efebbc00da424890a9919c872fbad64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:26 +0000
Subject: [PATCH 41/45] fix: JCFpm: every cohesive bond is counted once (joint
 bonds were counted twice, cohesionless joints once)

---
 pkg/dem/JointedCohesiveFrictionalPM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/JointedCohesiveFrictionalPM.cpp b/pkg/dem/JointedCohesiveFrictionalPM.cpp
index 1c5c1f3..9080993 100644
--- a/pkg/dem/JointedCohesiveFrictionalPM.cpp
+++ b/pkg/dem/JointedCohesiveFrictionalPM.cpp
@@ -519,8 +519,6 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
 	///to set if the contact is cohesive or not
 	if ( ((cohesiveTresholdIteration < 0) || (scene->iter < cohesiveTresholdIteration)) && (std::min(SigT1,SigT2)>0 || std::min(Coh1,Coh2)>0) && (yade1->type == yade2->type)){ 
 	  contactPhysics->isCohesive=true;
-	  st1->nbInitBonds++;
-	  st2->nbInitBonds++;
 	}
 	
 	if ( contactPhysics->isCohesive ) {
@@ -584,8 +582,6 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
 			///to set if the contact is cohesive or not
 			if ( ((cohesiveTresholdIteration < 0) || (scene->iter < cohesiveTresholdIteration)) && (std::min(jcoh1,jcoh2)>0 || std::min(jSigT1,jSigT2)>0) ) {
                             contactPhysics->isCohesive=true;
-                            st1->nbInitBonds++;
-                            st2->nbInitBonds++;
 			} 
 			else { contactPhysics->isCohesive=false; contactPhysics->FnMax=0; contactPhysics->FsMax=0; }
 		  
@@ -594,6 +590,10 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
                             contactPhysics->FsMax = std::min(jcoh1,jcoh2)*contactPhysics->crossSection;
 			}
 	}
+	if ( contactPhysics->isCohesive ) { // count each bond once, be it in the matrix or on a joint
+	  st1->nbInitBonds++;
+	  st2->nbInitBonds++;
+	}
 	interaction->phys = contactPhysics;
 }
 
-- 
2.43.0


From eaf51d5cbad791badcbdf95c6b1b83f1c6ad9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:26 +0000
Subject: [PATCH 42/45] fix: FrictViscoPM: no viscous force between separated
 bodies kept by neverErase

---
 pkg/dem/FrictViscoPM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/dem/FrictViscoPM.cpp b/pkg/dem/FrictViscoPM.cpp
index a0852f7..6f13f26 100644
--- a/pkg/dem/FrictViscoPM.cpp
+++ b/pkg/dem/FrictViscoPM.cpp
@@ -165,7 +165,9 @@ bool Law2_ScGeom_FrictViscoPhys_CundallStrackVisco::go(shared_ptr<IGeom>& ig, sh
 	if(geom->penetrationDepth <0){
 		if (neverErase) {
 			phys->shearForce = Vector3r::Zero();
-			phys->normalForce = Vector3r::Zero();}
+			phys->normalForce = Vector3r::Zero();
+			phys->normalViscous = Vector3r::Zero();
+			return true;}
 		else return false;
 	}
 	Real& un=geom->penetrationDepth;
-- 
2.43.0


From 4a6e87c3a162fec13fb347c508c1a4f25afe71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:55 +0000
Subject: [PATCH 43/45] fix: a contact keeps the step in which it was created
 when a simulation is reloaded

---
 core/InteractionContainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 64ec072..7c45ea2 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -145,7 +145,9 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 		if (!(*bodies)[id1] || !(*bodies)[id2]) {
 			return;
 		} else {
+			const long iterBorn=I->iterBorn; // insert() would overwrite it with the step number of the scene being replaced
 			insert(I);
+			I->iterBorn=iterBorn;
 		}
 	}
 	interaction.clear();
-- 
2.43.0


From 6fdefa12ef01ab245dc567ed6e5080f064b3c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:55 +0000
Subject: [PATCH 44/45] fix: inactive contacts stay inactive when a simulation
 is reloaded

---
 core/Interaction.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/Interaction.hpp b/core/Interaction.hpp
index f32a1d4..b19b283 100644
--- a/core/Interaction.hpp
+++ b/core/Interaction.hpp
@@ -19,7 +19,6 @@ class Interaction: public Serializable{
 		bool isReal() const {return (bool)geom && (bool)phys;}
 		//! If this interaction was just created in this step (for the constitutive law, to know that it is the first time there)
 		bool isFresh(Scene* rb);
-		bool isActive;
 
 		Interaction(Body::id_t newId1,Body::id_t newId2);
 
@@ -56,11 +55,11 @@ class Interaction: public Serializable{
 		((Vector3i,cellDist,Vector3i(0,0,0),,"Distance of bodies in cell size units, if using periodic boundary conditions; id2 is shifted by this number of cells from its :yref:`State::pos` coordinates for this interaction to exist. Assigned by the collider.\n\n.. warning::\n\t(internal)  cellDist must survive Interaction::reset(), it is only initialized in ctor. Interaction that was cancelled by the constitutive law, was reset() and became only potential must have thepriod information if the geometric functor again makes it real. Good to know after few days of debugging that :-)"))
 		((int,linIx,-1,(Attr::noSave|Attr::hidden),"Index in the linear interaction container. For internal use by InteractionContainer only."))
 		((long,iterBorn,-1,,"Step number at which the interaction was added to simulation."))
+		((bool,isActive,true,,"True if this interaction is active. Otherwise the forces from this interaction will not be taken into account. True by default."))
 		,
 		/* ctor */ init(),
 		/*py*/
 		.add_property("isReal",&Interaction::isReal,"True if this interaction has both geom and phys; False otherwise.")
-		.def_readwrite("isActive",&Interaction::isActive,"True if this interaction is active. Otherwise the forces from this interaction will not be taken into account. True by default.")
 	);
 };
 
-- 
2.43.0


From e68312278d1ebda11aa2b032c3dd58ac3f917f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:09 +0000
Subject: [PATCH 45/45] fix: density scaling stays switched on in the
 integrator when a simulation is reloaded

---
 pkg/dem/NewtonIntegrator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/dem/NewtonIntegrator.hpp b/pkg/dem/NewtonIntegrator.hpp
index e8b896e..8ccad26 100644
--- a/pkg/dem/NewtonIntegrator.hpp
+++ b/pkg/dem/NewtonIntegrator.hpp
@@ -48,7 +48,6 @@ class NewtonIntegrator : public FieldApplier{
 	Vector3r dSpin;
 
 	public:
-		bool densityScaling;// internal for density scaling
 		Real updatingDispFactor;//(experimental) Displacement factor used to trigger bound update: the bound is updated only if updatingDispFactor*disp>sweepDist when >0, else all bounds are updated.
 		// function to save maximum velocity, for the verlet-distance optimization
 		void saveMaximaVelocity(const Body::id_t& id, State* state);
@@ -77,10 +76,10 @@ class NewtonIntegrator : public FieldApplier{
 		((int,kinEnergyIx,-1,(Attr::hidden|Attr::noSave),"Index for kinetic energy in scene->energies."))
 		((int,kinEnergyTransIx,-1,(Attr::hidden|Attr::noSave),"Index for translational kinetic energy in scene->energies."))
 		((int,kinEnergyRotIx,-1,(Attr::hidden|Attr::noSave),"Index for rotational kinetic energy in scene->energies."))
+		((bool,densityScaling,false,Attr::hidden,"internal for density scaling, saved with the simulation"))
 		((int,mask,-1,,"If mask defined and the bitwise AND between mask and body`s groupMask gives 0, the body will not move/rotate. Velocities and accelerations will be calculated not paying attention to this parameter."))
 		,
 		/*ctor*/
-			densityScaling=false;
 			#ifdef YADE_OPENMP
 				threadMaxVelocitySq.resize(omp_get_max_threads()); syncEnsured=false;
 			#endif
-- 
2.43.0

