From 68e8070f5b4676c127aa2526c60edecaa41025b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 01/33] fix: CpmPhys law: periodic torques use the actual
 contact point as lever arm

In periodic scenes the lever arms were radius+(refPD-penetrationDepth)/2, whose
sum is not the centre distance unless refPD is 0, so the contact produced net
angular momentum and differed from the aperiodic branch.
---
 pkg/dem/ConcretePM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/ConcretePM.cpp b/pkg/dem/ConcretePM.cpp
index be4c791..8432738 100644
--- a/pkg/dem/ConcretePM.cpp
+++ b/pkg/dem/ConcretePM.cpp
@@ -445,8 +445,8 @@ bool Law2_ScGeom_CpmPhys_Cpm::go(shared_ptr<IGeom>& _geom, shared_ptr<IPhys>& _p
 	} else {
 		scene->forces.addForce(id1,f);
 		scene->forces.addForce(id2,-f);
-		scene->forces.addTorque(id1,(geom->radius1+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
-		scene->forces.addTorque(id2,(geom->radius2+.5*(phys->refPD-geom->penetrationDepth))*geom->normal.cross(f));
+		scene->forces.addTorque(id1,(geom->radius1-.5*geom->penetrationDepth)*geom->normal.cross(f));
+		scene->forces.addTorque(id2,(geom->radius2-.5*geom->penetrationDepth)*geom->normal.cross(f));
 	}
 	TIMING_DELTAS_CHECKPOINT("rest");
 	return true;
-- 
2.43.0


From 6d818e17adc26ff5a272e081f067a29c165db82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 02/33] fix: polyhedra law: torque on body 2 uses the periodic
 image's position as lever arm

---
 pkg/dem/Polyhedra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Polyhedra.cpp b/pkg/dem/Polyhedra.cpp
index 8395462..f8858c0 100644
--- a/pkg/dem/Polyhedra.cpp
+++ b/pkg/dem/Polyhedra.cpp
@@ -593,7 +593,7 @@ bool Law2_PolyhedraGeom_PolyhedraPhys_Volumetric::go(shared_ptr<IGeom>& ig, shar
 		scene->forces.addForce (idA,F);
 		scene->forces.addForce (idB, -F);
 		scene->forces.addTorque(idA, -(A->state->pos-contactGeom->contactPoint).cross(F));
-		scene->forces.addTorque(idB, (B->state->pos-contactGeom->contactPoint).cross(F));	
+		scene->forces.addTorque(idB, (B->state->pos+shift2-contactGeom->contactPoint).cross(F));	
 
 		/*
 		FILE * fin = fopen("Forces.dat","a");
-- 
2.43.0


From 1d6a8b429b8fc83f63d3dd3c0dd57655b2cbf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 03/33] fix: simple tetra law: torque on body 2 uses the
 periodic image's position as lever arm

---
 pkg/dem/Tetra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Tetra.cpp b/pkg/dem/Tetra.cpp
index af89d6b..04e9ce1 100644
--- a/pkg/dem/Tetra.cpp
+++ b/pkg/dem/Tetra.cpp
@@ -1212,8 +1212,8 @@ bool Law2_TTetraSimpleGeom_NormPhys_Simple::go(shared_ptr<IGeom>& ig, shared_ptr
 
 	State* de1 = Body::byId(id1,scene)->state.get();
 	State* de2 = Body::byId(id2,scene)->state.get();
-	applyForceAtContactPoint(-phys->normalForce, geom->contactPoint, id1, de1->se3.position, id2, de2->se3.position);
-	// TODO periodic
+	const Vector3r pos2 = scene->isPeriodic ? Vector3r(de2->se3.position+scene->cell->intrShiftPos(contact->cellDist)) : de2->se3.position;
+	applyForceAtContactPoint(-phys->normalForce, geom->contactPoint, id1, de1->se3.position, id2, pos2);
 	return true;
 }
 #endif
-- 
2.43.0


From b6cce668c27bf763feb34bc362242d3de1a690a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 04/33] fix: InteractionContainer::eraseNonReal no longer skips
 interactions moved into freed slots

---
 core/InteractionContainer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..bf2a17d 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -120,7 +120,11 @@ void InteractionContainer::requestErase(Interaction* I){
 }
 
 void InteractionContainer::eraseNonReal(){
-	FOREACH(const shared_ptr<Interaction>& i, *this) if(!i->isReal()) this->erase(i->getId1(),i->getId2(),i->linIx);
+	// erase() moves the last interaction into the freed slot, hence go backwards: whatever moves has been visited already
+	for(long i=(long)linIntrs.size()-1; i>=0; i--){
+		const shared_ptr<Interaction> I=linIntrs[i];
+		if(!I->isReal()) this->erase(I->getId1(),I->getId2(),I->linIx);
+	}
 }
 
 // compare interaction based on their first id
-- 
2.43.0


From 90d8d9700a1bdc3d696ad445884b74c979e3e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 05/33] fix: loading interactions skips those with missing
 bodies instead of stopping at the first one

---
 core/InteractionContainer.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index bf2a17d..f8edd41 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -150,11 +150,8 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 	clear();
 	FOREACH(const shared_ptr<Interaction>& I, interaction){ 
 		Body::id_t id1=I->getId1(), id2=I->getId2();
-		if (!(*bodies)[id1] || !(*bodies)[id2]) {
-			return;
-		} else {
-			insert(I);
-		}
+		if (!(*bodies)[id1] || !(*bodies)[id2]) continue; // one of the bodies does not exist: drop this interaction only
+		insert(I);
 	}
 	interaction.clear();
 }
-- 
2.43.0


From 24ed885582d4e327d7601f67468891eadd19e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 06/33] fix: BodyContainer: check ids and the end iterator
 before dereferencing slots

---
 core/BodyContainer.cpp | 4 ++--
 core/BodyContainer.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..2a72d84 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,7 +28,7 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
@@ -39,7 +39,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(!exists(id)) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
diff --git a/core/BodyContainer.hpp b/core/BodyContainer.hpp
index 71037b2..196c4a0 100644
--- a/core/BodyContainer.hpp
+++ b/core/BodyContainer.hpp
@@ -39,7 +39,7 @@ class BodyContainer: public Serializable{
 			ContainerT::iterator end;
 			smart_iterator& operator++() {
 				ContainerT::iterator::operator++();
-				while (!(this->operator*()) && end!=(*this)) ContainerT::iterator::operator++();
+				while (end!=(*this) && !(this->operator*())) ContainerT::iterator::operator++();
 				return *this;}
 			smart_iterator operator++(int) {smart_iterator temp(*this); operator++(); return temp;}
 			smart_iterator& operator=(const ContainerT::iterator& rhs) {ContainerT::iterator::operator=(rhs); return *this;}
-- 
2.43.0


From 951901edbf7dfb58221f7f8e8da93e24d4b8b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 07/33] fix: ForceContainer: permanent loads neither shrink the
 storage nor touch the per-thread size of thread -1

---
 core/ForceContainerParallel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..4934b18 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -15,9 +15,10 @@ void ForceContainer::addTorqueUnsynced(Body::id_t id, const Vector3r& m) {
 }
 
 void ForceContainer::resizePerm(size_t newSize) {
+  if (newSize<size) newSize=size; // never shrink: permanent loads of other bodies would be lost
   _permForce.resize(newSize,Vector3r::Zero());
   _permTorque.resize(newSize,Vector3r::Zero());
-  if (size<newSize) size=newSize;
+  size=newSize;
   syncedSizes=false;
 }
 
@@ -25,11 +26,13 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) {
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
-- 
2.43.0


From 376e19dd52bb592247bd6c18fd53fa684313a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 08/33] fix: ForceContainer: bounds of permanent loads are
 checked when reading the load of a single body

---
 core/ForceContainerParallel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 4934b18..9ce6f11 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -138,7 +138,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -147,7 +147,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From f327ce0c28a11c007ea8058c64b131812c97dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:29 +0000
Subject: [PATCH 09/33] fix: erasing an interaction whose first body is gone
 also removes it from the other body

---
 core/InteractionContainer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index f8edd41..8a4d856 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -78,6 +78,7 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 	if(linIx<0) {
 		LOG_ERROR("InteractionContainer::erase: attempt to delete interaction with a deleted body (the definition of linPos in the call to erase() should fix the problem) for  ##"+boost::lexical_cast<string>(id1)+"+"+boost::lexical_cast<string>(id2));
 		return false;}
+	if(!b1 && b2) b2->intrs.erase(id1); // body id1 is gone, the other one must not keep the entry
 	// iid is not the last element; we have to move last one to its place
 	if (linIx<(int)currSize-1) {
 		linIntrs[linIx]=linIntrs[currSize-1];
-- 
2.43.0


From b778b274a77d4b559e48fc10155674a9d1eebd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:58 +0000
Subject: [PATCH 10/33] fix: a continuous run stops at the first step that
 reaches stopAtTime, which may be set to fractions of a second

---
 core/SimulationFlow.cpp    | 3 ++-
 py/wrapper/yadeWrapper.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..0903ef5 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,9 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real prevTime=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	if(scene->stopAtTime>0 && prevTime<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fc42921..094e7c4 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -625,7 +625,7 @@ class pyOmega{
 	long stopAtIter_get(){return OMEGA.getScene()->stopAtIter; }
 	void stopAtIter_set(long s){OMEGA.getScene()->stopAtIter=s; }
 	Real stopAtTime_get(){return OMEGA.getScene()->stopAtTime; }
-	void stopAtTime_set(long s){OMEGA.getScene()->stopAtTime=s; }
+	void stopAtTime_set(Real s){OMEGA.getScene()->stopAtTime=s; }
 
 
 	bool timingEnabled_get(){return TimingInfo::enabled;}
-- 
2.43.0


From b3e3d8d56c5b3d720ca145641cab9fc213661121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 11/33] fix: principal axes of a clump must be right-handed

The eigenvectors of the inertia tensor may form a left-handed triple; turning that matrix into a
quaternion gave the clump an orientation that is not its principal frame (about half of random clumps).
---
 core/Clump.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..af01d27 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may come out left-handed, which is not a rotation
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
@@ -307,6 +308,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may come out left-handed, which is not a rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
@@ -411,6 +413,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	//TRWM3MAT(Ic_orientG);
 	matrixEigenDecomposition(Ic_orientG,R_g2c,Ic);
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may come out left-handed, which is not a rotation
 	/*! @bug eigendecomposition might be wrong. see http://article.gmane.org/gmane.science.physics.yade.devel/99 for message. It is worked around below, however.
 	*/
 	// has NaNs for identity matrix!
-- 
2.43.0


From 8da53d4193b69c8615274ef02de2f3e2f9065b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 12/33] fix: rotate the inertia of non-spherical clump members
 into world axes

inertiaTensorRotate(I,T) is T^t*I*T, so the conjugate orientation is needed (as in updatePropertiesNonSpherical).
---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index af01d27..42be6c4 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -204,7 +204,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 				const Quaternionr& ori = subState->ori;
 				M += m;
 				Sg += m*pos;
-				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori),m,-pos);
+				Ig += inertiaTensorTranslate(inertiaTensorRotate(inertia.asDiagonal(),ori.conjugate()),m,-pos);
 			}
 		}
 	}
-- 
2.43.0


From b75ce117aad091f706287c47c89a6b616c33e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 13/33] fix: own inertia of an integration cell of a clump is
 proportional to its mass, not its volume

---
 core/Clump.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 42be6c4..737e068 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -175,7 +175,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 								M += m;
 								Sg += m*x;
 								//inertia I = sum_i( mass_i*dist^2 + I_s) )	//steiners theorem
-								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(dv*pow(dx,2)/6.).asDiagonal())/*I_s/m = d^2: along princial axes of dv; perhaps negligible?*/;
+								Ig += m*( x.dot(x)*Matrix3r::Identity()-x*x.transpose())/*dist^2*/+Matrix3r(Vector3r::Constant(m*pow(dx,2)/6.).asDiagonal())/*I_s of the cube dv; perhaps negligible?*/;
 								break;
 							}
 						}
-- 
2.43.0


From ea6179252f375f99acf2e0db41fb078e2b3d3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 14/33] fix: members of a clump added to another clump stay
 members

The absorbed clump kept listing them, so that erasing it (addToClump) reset their clumpId: they were
moved as members of the new clump and integrated as free bodies at the same time.
---
 core/Clump.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 737e068..2437866 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -33,6 +33,7 @@ void Clump::add(const shared_ptr<Body>& clumpBody, const shared_ptr<Body>& subBo
 			clump->members[memberId]=Se3r();// meaningful values will be put in by Clump::updateProperties
 			//LOG_DEBUG("Added body #"<<memberId->id<<" to clump #"<<clumpBody->id);
 		}
+		subClump->members.clear(); // they belong to the other clump now; erasing this one must not release them
 		//LOG_DEBUG("Clump #"<<subClump->id<<" will be erased.");// see addToClump() in yadeWrapper.cpp
 	}
 	else{	// subBody must be a standalone!
-- 
2.43.0


From 48653a8576e51d0d30a110c3d5bbfa4873de6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 15/33] fix: addToClump finishes the job when one body of the
 list is skipped

A warning about one body returned at once: bodies joined before were left without updated clump
properties, absorbed clumps were not erased, and bodies after it were ignored.
---
 py/wrapper/yadeWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 094e7c4..3d087d0 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -185,14 +185,14 @@ class pyBodyContainer{
 		FOREACH(Body::id_t bid, bids) {
 			shared_ptr<Body> bp = Body::byId(bid,scene);		// get body pointer
 			if (bp->isClump()){
-				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); return;}
+				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); continue;}
 				Clump::add(clp,bp);//add clump bid to clump cid
 				eraseList.push_back(bid);
 			}
 			else if (bp->isClumpMember()){
 				Body::id_t bpClumpId = bp->clumpId;
 				shared_ptr<Body> bpClumpPointer = Body::byId(bpClumpId,scene);
-				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); return;} 
+				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); continue;} 
 				Clump::add(clp,bpClumpPointer);//add clump bpClumpId to clump cid
 				eraseList.push_back(bpClumpId);
 			}
-- 
2.43.0


From d53b9e8126f5baac60699c7085faa20a093b2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:04 +0000
Subject: [PATCH 16/33] fix: clump() updates or removes the clumps it takes
 bodies from

An old clump kept the mass and inertia of the members it lost, or stayed as a clump without members.
---
 py/wrapper/yadeWrapper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 3d087d0..5e64802 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -107,11 +107,18 @@ class pyBodyContainer{
 		// add clump members to the clump
 		FOREACH(Body::id_t id, ids) {
 			if (Body::byId(id,scene)->isClumpMember()){	//Check, whether the body is clumpMember
-				Clump::del(Body::byId(Body::byId(id,scene)->clumpId,scene),Body::byId(id,scene)); //If so, remove it from there
+				const shared_ptr<Body> oldClump=Body::byId(Body::byId(id,scene)->clumpId,scene);
+				Clump::del(oldClump,Body::byId(id,scene)); //If so, remove it from there
+				if(YADE_PTR_CAST<Clump>(oldClump->shape)->members.empty()) proxee->erase(oldClump->id,false); // nothing left of the old clump
+				else Clump::updateProperties(oldClump,discretization);
 			}
 		};
 		
-		FOREACH(Body::id_t id, ids) Clump::add(clumpBody,Body::byId(id,scene));
+		FOREACH(Body::id_t id, ids) {
+			const shared_ptr<Body> b=Body::byId(id,scene);
+			Clump::add(clumpBody,b);
+			if (b->isClump()) proxee->erase(id,false); // its members are in the new clump now
+		}
 		Clump::updateProperties(clumpBody, discretization);
 		return clumpBody->getId();
 	}
-- 
2.43.0


From 45048fc37ac9b5de9603c58c373041e3eafe8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:12 +0000
Subject: [PATCH 17/33] fix: Cell.size is assignable again: the read-only
 duplicate hid its setter

---
 core/Cell.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/Cell.hpp b/core/Cell.hpp
index fac85eb..08156e1 100644
--- a/core/Cell.hpp
+++ b/core/Cell.hpp
@@ -169,7 +169,6 @@ class Cell: public Serializable{
 		// useful properties
 		.add_property("trsf",&Cell::getTrsf,&Cell::setTrsf,"Current transformation matrix of the cell, obtained from time integration of :yref:`Cell.velGrad`.")
 		.add_property("velGrad",&Cell::getVelGrad,&Cell::setVelGrad,"Velocity gradient of the transformation; used in :yref:`NewtonIntegrator`. Values of :yref:`velGrad<Cell.velGrad>` accumulate in :yref:`trsf<Cell.trsf>` at every step.\n\n NOTE: changing velGrad at the beginning of a simulation loop would lead to inacurate integration for one step, as it should normaly be changed after the contact laws (but before Newton). To avoid this problem, assignment is deferred automatically. The target value typed in terminal is actually stored in :yref:`Cell.nextVelGrad` and will be applied right in time by Newton integrator. \n\n.. note::\n\t Assigning individual components of velGrad is not possible (it will not return any error but it will have no effect). Instead, you can assign to :yref:`Cell.nextVelGrad`, as in O.cell.nextVelGrad[1,2]=1.")
-		.def_readonly("size",&Cell::getSize_copy,"Current size of the cell, i.e. lengths of the 3 cell lateral vectors contained in :yref:`Cell.hSize` columns. Updated automatically at every step.")
 		.add_property("volume",&Cell::getVolume,"Current volume of the cell.")
 		// functions
 		.def("setBox",&Cell::setBox,"Set :yref:`Cell` shape to be rectangular, with dimensions along axes specified by given argument. Shorthand for assigning diagonal matrix with respective entries to :yref:`hSize<Cell.hSize>`.")
-- 
2.43.0


From 0061c41902629ad02a82d9c4a71022a62adac48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:12 +0000
Subject: [PATCH 18/33] fix: flipCell composes flips with det(Id+flip)=1 and
 refuses those without

---
 pkg/dem/Shop_01.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/dem/Shop_01.cpp b/pkg/dem/Shop_01.cpp
index 31a79a0..8f9b884 100644
--- a/pkg/dem/Shop_01.cpp
+++ b/pkg/dem/Shop_01.cpp
@@ -54,27 +54,29 @@ Matrix3r Shop::flipCell(const Matrix3r& _flip){
 	Matrix3r& hSize = cell->hSize;
 	Matrix3i flip;
 	if(_flip==Matrix3r::Zero()){
-		bool hasNonzero=false;
+		// compose elementary flips, each one seeing the cell as left by those before; det(Id+flip)=1 by construction
+		Matrix3r flipped(hSize); Matrix3i trsf(Matrix3i::Identity());
 		for(int i=0; i<3; i++) for(int j=0; j<3; j++) {
-			if(i==j){ flip(i,j)=0; continue; }
-			flip(i,j)=-floor(hSize.col(j).dot(hSize.col(i))/hSize.col(i).dot(hSize.col(i)));
-			if(flip(i,j)!=0) hasNonzero=true;
+			if(i==j) continue;
+			int n=-(int)floor(flipped.col(j).dot(flipped.col(i))/flipped.col(i).dot(flipped.col(i))+.5);
+			flipped.col(j)+=n*flipped.col(i);
+			trsf.col(j)+=n*trsf.col(i);
 		}
-		if(!hasNonzero) {LOG_TRACE("No flip necessary."); return Matrix3r::Zero();}
+		flip=trsf-Matrix3i::Identity();
+		if(flip==Matrix3i::Zero()) {LOG_TRACE("No flip necessary."); return Matrix3r::Zero();}
 	} else {
-		if (_flip.determinant()!=1) LOG_WARN("Flipping cell needs det(Id+flip)=1, check your input.");
 		flip=_flip.cast<int>();
+		if(Matrix3i(Matrix3i::Identity()+flip).determinant()!=1) throw std::invalid_argument("Flipping cell needs det(Id+flip)=1, check your input.");
 	}
 	cell->hSize+=cell->hSize*flip.cast<Real>();
 	cell->postLoad(*cell);
 
 	// adjust Interaction::cellDist for interactions;
-	// adjunct matrix of (Id + flip) is the inverse since det=1, below is the transposed co-factor matrix of (Id+flip).
-	// note that Matrix3::adjoint is not the adjunct, hence the in-place adjunct below
+	// adjunct matrix of (Id + flip) is the inverse since det=1
+	// note that Matrix3::adjoint is not the adjunct, hence the transposed co-factor matrix below
+	const Matrix3i m(Matrix3i::Identity()+flip);
 	Matrix3i invFlip;
-	invFlip << 1-flip(2,1)*flip(1,2), flip(2,1)*flip(0,2)-flip(0,1), flip(0,1)*flip(1,2)-flip(0,2),
-			    flip(1,2)*flip(2,0)-flip(1,0), 1-flip(0,2)*flip(2,0), flip(0,2)*flip(1,0)-flip(1,2),
-			    flip(1,0)*flip(2,1)-flip(2,0), flip(2,0)*flip(0,1)-flip(2,1), 1-flip(1,0)*flip(0,1);
+	for(int i=0; i<3; i++) for(int j=0; j<3; j++) invFlip(i,j)=m((j+1)%3,(i+1)%3)*m((j+2)%3,(i+2)%3)-m((j+1)%3,(i+2)%3)*m((j+2)%3,(i+1)%3);
 	FOREACH(const shared_ptr<Interaction>& i, *scene->interactions) i->cellDist = invFlip*i->cellDist;
 
 	// force reinitialization of the collider
-- 
2.43.0


From 89c975759bf779165abb40b93a277f57c9bba178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 19/33] fix: contact of a sphere inside a box is placed at its
 periodic image

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 24a1884..57b5520 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -81,8 +81,8 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		 *
 		 *
 		 */
-		pt1 = se32.position+normal*minCBoxDist;
-		pt2 = se32.position-normal*s->radius;
+		pt1 = se32.position+shift2+normal*minCBoxDist;
+		pt2 = se32.position+shift2-normal*s->radius;
 		Vector3r normal = pt1-pt2; normal.normalize();
 		bool isNew=!c->geom;
 		if (isNew) scm = shared_ptr<ScGeom>(new ScGeom());
-- 
2.43.0


From 87921891fb6b16e94c777facfc76d496bfb17296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 20/33] fix: shear of a sphere inside a box is not scaled as if
 between two spheres

---
 pkg/dem/Ig2_Box_Sphere_ScGeom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
index 57b5520..f582aff 100644
--- a/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Box_Sphere_ScGeom.cpp
@@ -96,7 +96,7 @@ bool Ig2_Box_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1, const shared_ptr<Sh
 		scm->radius1 = s->radius;
 		scm->radius2 = s->radius;
 		c->geom = scm;
-		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,true);
+		scm->precompute(state1,state2,scene,c,normal,isNew,shift2,false/*avoidGranularRatcheting only for sphere-sphere*/);
 	} else { // outside
 		Vector3r cOnBox_box = boxAxisT*cOnBox_boxLocal; // projection of sphere's center on closest box surface - relative to box's origin, but GLOBAL orientation!
 		Vector3r cOnBox_sphere = cOnBox_box-relPos21; // same, but origin in sphere's center
-- 
2.43.0


From eeeea3d783cb67e9dbda306d433f2ae3c2ef16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 21/33] fix: Ig2_Facet_Sphere_ScGeom creates forced contacts

---
 pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp b/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp
index 3b95fdc..ad29736 100644
--- a/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp
+++ b/pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp
@@ -100,7 +100,7 @@ bool Ig2_Facet_Sphere_ScGeom::go(const shared_ptr<Shape>& cm1,
 	// END everything in facet-local coordinates
 	//
 
-	if (penetrationDepth>0 || c->isReal())
+	if (penetrationDepth>0 || c->isReal() || force)
 	{
 		shared_ptr<ScGeom> scm;
 		bool isNew = !c->geom;
-- 
2.43.0


From 49dfdf086949b550979683c3def5e3d9bde2fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 22/33] fix: L3Geom takes the branch of the second sphere from
 its periodic image

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 182061d..baf9ac4 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -116,7 +116,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
 	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
-	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-state2.pos+shift2).eval());
+	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-(state2.pos+shift2)).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
 	Vector3r relShearVel=(state2.vel+state2.angVel.cross(c2x))-(state1.vel+state1.angVel.cross(c1x));
-- 
2.43.0


From b826549c605a40fb43b5ce3753f481fa5273b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 23/33] fix: L3Geom noRatch uses the radius of the first
 sphere, not that of walls and facets

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index baf9ac4..c2de061 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -115,7 +115,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	Vector3r normTwistVec=avgNormal*scene->dt*.5*avgNormal.dot(state1.angVel+state2.angVel);
 	// compute relative velocity
 	// noRatch: take radius or current distance as the branch vector; see discussion in ScGeom::precompute (avoidGranularRatcheting)
-	Vector3r c1x=((noRatch && !(r1>0)) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
+	Vector3r c1x=((noRatch && r1>0) ? ( r1*normal).eval() : (contPt-state1.pos).eval()); // used only for sphere-sphere
 	Vector3r c2x=(noRatch ? (-r2*normal).eval() : (contPt-(state2.pos+shift2)).eval());
 	//Vector3r state2velCorrected=state2.vel+(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero()); // velocity of the second particle, corrected with meanfield velocity if necessary
 	//cerr<<"correction "<<(scene->isPeriodic?scene->cell->intrShiftVel(I->cellDist):Vector3r::Zero())<<endl;
-- 
2.43.0


From d346154e3f2a6c59c67035203ab6609c671cdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 24/33] fix: trsfRenorm=0 no longer divides by zero

---
 pkg/dem/L3Geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index c2de061..7afa744 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -141,7 +141,7 @@ void Ig2_Sphere_Sphere_L3Geom::handleSpheresLikeContact(const shared_ptr<Interac
 	for(int i=1; i<3; i++){
 		currTrsf.row(i)=prevTrsf.row(i)-prevTrsf.row(i).cross(normRotVec)-prevTrsf.row(i).cross(normTwistVec);
 	}
-  if((scene->iter % trsfRenorm)==0 && trsfRenorm>0){
+  if(trsfRenorm>0 && (scene->iter % trsfRenorm)==0){
       currTrsf.row(0).normalize();
       currTrsf.row(1)-=currTrsf.row(0)*currTrsf.row(1).dot(currTrsf.row(0)); // take away y projected on x, to stabilize numerically
       currTrsf.row(1).normalize();
-- 
2.43.0


From 18e5938f309575516203348329d65b0f9dba1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:52 +0000
Subject: [PATCH 25/33] fix: contact with an obtuse facet beside its corner is
 with the nearer edge

---
 pkg/dem/L3Geom.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/dem/L3Geom.cpp b/pkg/dem/L3Geom.cpp
index 7afa744..e4c78ea 100644
--- a/pkg/dem/L3Geom.cpp
+++ b/pkg/dem/L3Geom.cpp
@@ -213,6 +213,10 @@ bool Ig2_Wall_Sphere_L3Geom::go(const shared_ptr<Shape>& s1, const shared_ptr<Sh
 	return true;
 };
 
+namespace { // point of A, B closer to P
+	Vector3r closerPt(const Vector3r& P, const Vector3r& A, const Vector3r& B){ return (A-P).squaredNorm()<=(B-P).squaredNorm() ? A : B; }
+}
+
 bool Ig2_Facet_Sphere_L3Geom::go(const shared_ptr<Shape>& s1, const shared_ptr<Shape>& s2, const State& state1, const State& state2, const Vector3r& shift2, const bool& force, const shared_ptr<Interaction>& I){
 	const Facet& facet(s1->cast<Facet>());
 	Real radius=s2->cast<Sphere>().radius;
@@ -232,9 +236,9 @@ bool Ig2_Facet_Sphere_L3Geom::go(const shared_ptr<Shape>& s1, const shared_ptr<S
 			case 1: contactPt=getClosestSegmentPt(planarPt,facet.vertices[0],facet.vertices[1]); break; // +-- (n1)
 			case 2: contactPt=getClosestSegmentPt(planarPt,facet.vertices[1],facet.vertices[2]); break; // -+- (n2)
 			case 4: contactPt=getClosestSegmentPt(planarPt,facet.vertices[2],facet.vertices[0]); break; // --+ (n3)
-			case 3: contactPt=facet.vertices[1]; break; // ++- (v1)
-			case 5: contactPt=facet.vertices[0]; break; // +-+ (v0)
-			case 6: contactPt=facet.vertices[2]; break; // -++ (v2)
+			case 3: contactPt=closerPt(planarPt,getClosestSegmentPt(planarPt,facet.vertices[0],facet.vertices[1]),getClosestSegmentPt(planarPt,facet.vertices[1],facet.vertices[2])); break; // ++- (v1)
+			case 5: contactPt=closerPt(planarPt,getClosestSegmentPt(planarPt,facet.vertices[2],facet.vertices[0]),getClosestSegmentPt(planarPt,facet.vertices[0],facet.vertices[1])); break; // +-+ (v0)
+			case 6: contactPt=closerPt(planarPt,getClosestSegmentPt(planarPt,facet.vertices[1],facet.vertices[2]),getClosestSegmentPt(planarPt,facet.vertices[2],facet.vertices[0])); break; // -++ (v2)
 			case 7: throw logic_error("Ig2_Facet_Sphere_L3Geom: Impossible sphere-facet intersection (all points are outside the edges). (please report bug)"); // +++ (impossible)
 			default: throw logic_error("Ig2_Facet_Sphere_L3Geom: Nonsense intersection value. (please report bug)");
 		}
-- 
2.43.0


From bd341ce2d17d07ddcca65d44395b340f40de0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 26/33] fix: potential contacts the collider no longer sees are
 erased, not only listed

---
 pkg/common/InteractionLoop.cpp |  2 +-
 pkg/common/InteractionLoop.hpp | 12 ------------
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/pkg/common/InteractionLoop.cpp b/pkg/common/InteractionLoop.cpp
index eb4cc18..b550712 100644
--- a/pkg/common/InteractionLoop.cpp
+++ b/pkg/common/InteractionLoop.cpp
@@ -67,7 +67,7 @@ void InteractionLoop::action(){
 // 	#endif
 		if (not (bool) I) cerr<<"##### found null I #####"<<endl;
 		if(removeUnseenIntrs && !I->isReal() && I->iterLastSeen<scene->iter) {
-			eraseAfterLoop(I->getId1(),I->getId2());
+			scene->interactions->requestErase(I);
 			continue;
 		}		
 		const shared_ptr<Body>& b1_=Body::byId(I->getId1(),scene);
diff --git a/pkg/common/InteractionLoop.hpp b/pkg/common/InteractionLoop.hpp
index a7b65e4..4a430c7 100644
--- a/pkg/common/InteractionLoop.hpp
+++ b/pkg/common/InteractionLoop.hpp
@@ -14,15 +14,6 @@
 
 class InteractionLoop: public GlobalEngine {
 	bool alreadyWarnedNoCollider;
-	using idPair = std::pair<Body::id_t, Body::id_t>;
-	// store interactions that should be deleted after loop in action, not later
-	#ifdef YADE_OPENMP
-		std::vector<std::list<idPair> > eraseAfterLoopIds;
-		void eraseAfterLoop(Body::id_t id1,Body::id_t id2){ eraseAfterLoopIds[omp_get_thread_num()].push_back(idPair(id1,id2)); }
-	#else
-		list<idPair> eraseAfterLoopIds;
-		void eraseAfterLoop(Body::id_t id1,Body::id_t id2){ eraseAfterLoopIds.push_back(idPair(id1,id2)); }
-	#endif
 	public:
 		virtual void pyHandleCustomCtorArgs(boost::python::tuple& t, boost::python::dict& d);
 		virtual void action();
@@ -34,9 +25,6 @@ class InteractionLoop: public GlobalEngine {
 			((bool, eraseIntsInLoop, false,,"Defines if the interaction loop should erase pending interactions, else the collider takes care of that alone (depends on what collider is used)."))
 			,
 			/*ctor*/ alreadyWarnedNoCollider=false;
-				#ifdef YADE_OPENMP
-					eraseAfterLoopIds.resize(omp_get_max_threads());
-				#endif
 			,
 			/*py*/
 		);
-- 
2.43.0


From 523e0856177e4398e544ab198b9875b7ee482e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 27/33] fix: explicit creation of a contact finds the nearest
 image and respects the order of the functor

---
 pkg/common/Dispatching.cpp | 43 +++++++++++++++++---------------------
 pkg/dem/Shop_02.cpp        |  1 +
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 604c24a..b350414 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -66,32 +66,27 @@ CREATE_LOGGER(IGeomDispatcher);
 
 shared_ptr<Interaction> IGeomDispatcher::explicitAction(const shared_ptr<Body>& b1, const shared_ptr<Body>& b2, bool force){
 	scene=Omega::instance().getScene().get(); // to make sure if called from outside of the loop
-	Vector3i cellDist=Vector3i::Zero();
-	if(scene->isPeriodic) {
-		for(int i=0; i<3; i++) cellDist[i]=-(int)((b2->state->pos[i]-b1->state->pos[i])/scene->cell->getSize()[i]+.5);
-	}
-	Vector3r shift2=scene->cell->hSize*cellDist.cast<Real>();
 	updateScenePtr();
-	if(force){
-		assert(b1->shape && b2->shape);
-		shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
-		I->cellDist=cellDist;
-		// FIXME: this code is more or less duplicated from InteractionLoop :-(
-		bool swap=false;
-		I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
-		if(!I->functorCache.geom) throw invalid_argument("IGeomDispatcher::explicitAction could not dispatch for given types ("+b1->shape->getClassName()+","+b2->shape->getClassName()+").");
-		if(swap){I->swapOrder();}
-		const shared_ptr<Body>& b1=Body::byId(I->getId1(),scene);
-		const shared_ptr<Body>& b2=Body::byId(I->getId2(),scene);
-		bool succ=I->functorCache.geom->go(b1->shape,b2->shape,*b1->state,*b2->state,shift2,/*force*/true,I);
-		if(!succ) throw logic_error("Functor "+I->functorCache.geom->getClassName()+"::go returned false, even if asked to force IGeom creation. Please report bug.");
-		return I;
-	} else {
-		shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
-		I->cellDist=cellDist;
-		b1->shape && b2->shape && I->functorCache.geom->go(b1->shape,b2->shape,*b1->state,*b2->state,shift2,/*force*/true,I);
-		return I;
+	shared_ptr<Interaction> I(new Interaction(b1->getId(),b2->getId()));
+	if(scene->isPeriodic) { // the image of b2 which is the closest to b1
+		const Vector3r dist=scene->cell->hSize.inverse()*(b2->state->pos-b1->state->pos);
+		for(int i=0; i<3; i++) I->cellDist[i]=-(int)floor(dist[i]+.5);
+	}
+	// FIXME: this code is more or less duplicated from InteractionLoop :-(
+	bool swap=false;
+	if(b1->shape && b2->shape) I->functorCache.geom=getFunctor2D(b1->shape,b2->shape,swap);
+	if(!I->functorCache.geom) {
+		if(!force) return I;
+		throw invalid_argument("IGeomDispatcher::explicitAction could not dispatch for given types ("+(b1->shape?b1->shape->getClassName():"None")+","+(b2->shape?b2->shape->getClassName():"None")+").");
 	}
+	if(swap){I->swapOrder();}
+	const shared_ptr<Body>& bb1=swap?b2:b1;
+	const shared_ptr<Body>& bb2=swap?b1:b2;
+	Vector3r shift2=Vector3r::Zero();
+	if(scene->isPeriodic) shift2=scene->cell->hSize*I->cellDist.cast<Real>();
+	bool succ=I->functorCache.geom->go(bb1->shape,bb2->shape,*bb1->state,*bb2->state,shift2,force,I);
+	if(force && !succ) throw logic_error("Functor "+I->functorCache.geom->getClassName()+"::go returned false, even if asked to force IGeom creation. Please report bug.");
+	return I;
 }
 
 void IGeomDispatcher::action(){
diff --git a/pkg/dem/Shop_02.cpp b/pkg/dem/Shop_02.cpp
index ce98a2a..6f901ce 100644
--- a/pkg/dem/Shop_02.cpp
+++ b/pkg/dem/Shop_02.cpp
@@ -120,6 +120,7 @@ shared_ptr<Interaction> Shop::createExplicitInteraction(Body::id_t id1, Body::id
 	shared_ptr<Interaction> i=geomMeta->explicitAction(b1,b2,/*force*/force);
 	assert(force && i);
 	if(!i) return i;
+	if(i->getId1()!=id1) b1.swap(b2); // the functor wanted the bodies the other way round
 	physMeta->explicitAction(b1->material,b2->material,i);
 	i->iterMadeReal=rb->iter;
 	rb->interactions->insert(i);
-- 
2.43.0


From 811c615cfdb48d8c98800399c36a898fbc27a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 28/33] fix: separate dispatchers find the geometry functor and
 obey the refusal of the law

---
 pkg/common/Dispatching.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index b350414..07c7794 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -108,13 +108,20 @@ void IGeomDispatcher::action(){
 				scene->interactions->requestErase(I);
 				continue;
 			}
-			const shared_ptr<Body>& b1=(*bodies)[I->getId1()];
-			const shared_ptr<Body>& b2=(*bodies)[I->getId2()];
+			const shared_ptr<Body>& b1_=(*bodies)[I->getId1()];
+			const shared_ptr<Body>& b2_=(*bodies)[I->getId2()];
 
-			if(!b1 || !b2){ LOG_DEBUG("Body #"<<(b1?I->getId2():I->getId1())<<" vanished, erasing intr #"<<I->getId1()<<"+#"<<I->getId2()<<"!"); scene->interactions->requestErase(I); continue; }
+			if(!b1_ || !b2_){ LOG_DEBUG("Body #"<<(b1_?I->getId2():I->getId1())<<" vanished, erasing intr #"<<I->getId1()<<"+#"<<I->getId2()<<"!"); scene->interactions->requestErase(I); continue; }
 
 			bool wasReal=I->isReal();
-			if (!b1->shape || !b2->shape) { assert(!wasReal); continue; } // some bodies do not have shape
+			if (!b1_->shape || !b2_->shape) { assert(!wasReal); continue; } // some bodies do not have shape
+			bool swap=false;
+			if(!I->functorCache.geom) I->functorCache.geom=getFunctor2D(b1_->shape,b2_->shape,swap);
+			if(!I->functorCache.geom) continue; // no functor for these shapes
+			// see InteractionLoop::action
+			if(swap){I->swapOrder();}
+			const shared_ptr<Body>& b1=swap?b2_:b1_;
+			const shared_ptr<Body>& b2=swap?b1_:b2_;
 			bool geomCreated;
 			//const bool forceFalse=false;
 			if(!isPeriodic){
@@ -185,7 +192,10 @@ void LawDispatcher::action(){
 	#endif
 		if(I->isReal()){
 			assert(I->geom); assert(I->phys);
-			operator()(I->geom,I->phys,I.get());
+			bool swap=false;
+			const shared_ptr<LawFunctor> law=getFunctor2D(I->geom,I->phys,swap);
+			//If the functor returns false, the interaction is reset
+			if(law && !law->go(I->geom,I->phys,I.get())) scene->interactions->requestErase(I);
 			if(!I->isReal() && I->isFresh(scene)) LOG_ERROR("Law functor deleted interaction that was just created. Please report bug: either this message is spurious, or the functor (or something else) is buggy.");
 		}
 	}
-- 
2.43.0


From 7feb936a5abfc3e4191b99287a81bce1f85aac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:19 +0000
Subject: [PATCH 29/33] fix: collider starts over when bodies vanished or
 periodicity changed

The lists of bounds were cleared but their recorded size was kept, so that the
remaining bodies were not added again: contacts were missed after
O.bodies.clear() followed by adding fewer bodies, and after switching
periodicity on.
---
 pkg/common/InsertionSortCollider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..4431172 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -198,7 +198,7 @@ void InsertionSortCollider::action(){
 	#endif
 	// periodicity changed, force reinit
 	if(scene->isPeriodic != periodic){
-		for(int i=0; i<3; i++) BB[i].vec.clear();
+		invalidatePersistentData();
 		periodic=scene->isPeriodic;
 	}
 	// pre-conditions
@@ -213,7 +213,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ invalidatePersistentData(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
-- 
2.43.0


From d512d9c1a211c911eca6b3f0d69006743a2f1a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:19 +0000
Subject: [PATCH 30/33] fix: box of a sphere in a multiply skewed cell contains
 the sphere

The half size along an axis of the cell is the radius times the norm of the
corresponding row of the unshear transformation; the former formula was too
small when several angles of the cell were not right, and contacts were missed.
---
 pkg/common/Bo1_Aabb.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..b1f7aee 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -20,17 +20,11 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 		return;
 	}
 	// adjust box size along axes so that sphere doesn't stick out of the box even if sheared (i.e. parallelepiped)
+	// (the i-th unsheared coordinate of x is the scalar product of x with the i-th row of the unshear transformation)
 	if(scene->cell->hasShear()) {
-		Vector3r refHalfSize(halfSize);
-		const Vector3r& cos=scene->cell->getCos();
-		for(int i=0; i<3; i++){
-			//cerr<<"cos["<<i<<"]"<<cos[i]<<" ";
-			int i1=(i+1)%3,i2=(i+2)%3;
-			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
-			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
-		}
+		const Matrix3r unshear=scene->cell->getUnshearTrsf();
+		for(int i=0; i<3; i++) halfSize[i]*=unshear.row(i).norm();
 	}
-	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
 	aabb->max = scene->cell->unshearPt(se3.position)+halfSize;	
 }
-- 
2.43.0


From ec8d1edd8c8d1a94a66c54a2d7f9f6b642e3af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:19 +0000
Subject: [PATCH 31/33] fix: parts of the parallel insertion sort start within
 the list

With many threads the start of the last parts was beyond the end of the list.
---
 pkg/common/InsertionSortCollider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 4431172..9121427 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -68,13 +68,13 @@ void InsertionSortCollider::insertionSortParallel(VecBounds& v, InteractionConta
 	///chunks defines subsets of the bounds lists, we make sure they are not too small wrt. verlet dist.
 	std::vector<unsigned> chunks;
 	unsigned nChunks = ompThreads;
-	unsigned chunkSize = unsigned(v.size/nChunks)+1;
+	unsigned chunkSize = unsigned(v.size/nChunks);
 	for(unsigned n=0; n<nChunks;n++) chunks.push_back(n*chunkSize); chunks.push_back(v.size);
 	while (nChunks>1){
 		bool changeChunks=false;
 		for(unsigned n=1; n<nChunks;n++) if (chunksVerlet>(v[chunks[n]].coord-v[chunks[n-1]].coord)) changeChunks=true;
 		if (!changeChunks) break;
-		nChunks--; chunkSize = unsigned(v.size/nChunks)+1; chunks.clear();
+		nChunks--; chunkSize = unsigned(v.size/nChunks); chunks.clear();
 		for(unsigned n=0; n<nChunks;n++) chunks.push_back(n*chunkSize); chunks.push_back(v.size);
 	}
 	static unsigned warnOnce=0;
-- 
2.43.0


From 1f8d115a51f6909a8c7071c77e181ff4da752631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:19 +0000
Subject: [PATCH 32/33] fix: a body inserted at the id of a vanished one is
 fully detected

Bounds passing those of a vanished body are not examined; contacts with bodies
that did so were never found.
---
 core/BodyContainer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 2a72d84..10ade3a 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -34,6 +34,8 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
+	// bounds of other bodies may have passed those of the vanished body in the meantime, which went unnoticed
+	scene->interactions->dirty = true;
   body[b->id] = b; 
 	return b->id;
 }
-- 
2.43.0


From c41f5275a1f9cd2159d9426e6795652ad276350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:35 +0000
Subject: [PATCH 33/33] fix: shear stiffness of capillary contacts mixed up the
 ratios of the two materials

---
 pkg/dem/CapillaryPhys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/CapillaryPhys.cpp b/pkg/dem/CapillaryPhys.cpp
index d7fc77b..b0c7743 100644
--- a/pkg/dem/CapillaryPhys.cpp
+++ b/pkg/dem/CapillaryPhys.cpp
@@ -29,7 +29,7 @@ void Ip2_FrictMat_FrictMat_CapillaryPhys::go( const shared_ptr<Material>& b1 //F
 			Real fa 	= sdec1->frictionAngle;
 			Real fb 	= sdec2->frictionAngle;
 			Real Kn = 2*Ea*Da*Eb*Db/(Ea*Da+Eb*Db);//harmonic average of two stiffnesses
-			Real Ks = 2*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Va);//harmonic average of two stiffnesses with ks=V*kn for each sphere
+			Real Ks = 2*Ea*Da*Va*Eb*Db*Vb/(Ea*Da*Va+Eb*Db*Vb);//harmonic average of two stiffnesses with ks=V*kn for each sphere
 
 			contactPhysics->tangensOfFrictionAngle = std::tan(std::min(fa,fb));
 			contactPhysics->kn = Kn;
-- 
2.43.0

