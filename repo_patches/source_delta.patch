From a2d9ab719031c401fc25b54bd0d0a650aeddbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 01/26] fix: index of the wall velocity in Adiabaticwall

The momentum loop starts at 1; the wall velocity was indexed with the same
counter, reading past its end.
---
 src/spatial/abc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 1a43313..f1c0d2b 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -316,7 +316,7 @@ void Adiabaticwall<scalar,j_real>::computeGhostState(const scalar *const ins, co
 {
 	gs[0] = ins[0];
 	for(int i= 1; i< NDIM+1; i++)
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 	gs[NDIM+1] = ins[NDIM+1];
 }
 
@@ -333,9 +333,9 @@ void Adiabaticwall<scalar,j_real>::computeGhostStateAndJacobian(const j_real *co
 	dgs[0] = 1.0;
 
 	for(int i= 1; i< NDIM+1; i++) {
-		gs[i] =  2.0*ins[0]*wallvel[i] - ins[i];
+		gs[i] =  2.0*ins[0]*wallvel[i-1] - ins[i];
 
-		dgs[i*NVARS+0] = 2.0*wallvel[i];
+		dgs[i*NVARS+0] = 2.0*wallvel[i-1];
 		dgs[i*NVARS+i] = -1.0;
 	}
 
-- 
2.43.0


From 227d59385cbcfff051a6afe12066d6b392bd620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 02/26] fix: use the same sonic branch in both InOutFlow
 routines

At exactly sonic outflow the residual used the supersonic and the Jacobian the
subsonic ghost state.
---
 src/spatial/abc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index f1c0d2b..835506a 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -110,7 +110,7 @@ void InOutFlow<scalar,j_real>::computeGhostStateAndJacobian(const j_real *const
 	/* At subsonic outflow, pressure is taken from farfield, the other 3 quantities
 	 * are taken from the interior.
 	 */
-	else if(Mni <= 1)
+	else if(Mni < 1)
 	{
 		gs[0] = ins[0];
 		gs[1] = ins[1];
-- 
2.43.0


From 5b4b1cd5eabf1eacf5b2262266d9832090cead6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 03/26] fix: ghost state and Jacobian of the isothermal wall

The linearisation used the wall temperature itself for the ghost cell, unlike
the residual, and wrong derivatives of temperature and velocity magnitude.
---
 src/spatial/abc.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 835506a..0893e88 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -377,8 +377,13 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	for(int k = 0; k < NVARS*NVARS; k++)
 		dgs[k] = 0;
 
-	/// \todo Fix isothermal BC Jacobian
-	// FIXME: Wrong Jacobian
+	// temperature in the ghost cell, and its derivatives
+	const j_real gtemp = 2.0*walltemperature - jphy.getTemperatureFromConserved(ins);
+	j_real dT[NVARS];
+	for(int i = 0; i < NVARS; i++) dT[i] = 0;
+	jphy.getJacobianTemperatureWrtConserved(ins, dT);
+	for(int i = 0; i < NVARS; i++) dT[i] = -dT[i];
+
 	const j_real tangMomentum = tangvel * ins[0];
 	gs[0] = ins[0];
 	dgs[0] = 1.0;
@@ -392,19 +397,16 @@ void Isothermalwall2D<scalar,j_real>::computeGhostStateAndJacobian(const j_real
 	dgs[2*NVARS+2] = -1.0;
 
 	const j_real vmag2 = dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]);
-	gs[3] = jphy.getEnergyFromTemperature(walltemperature, ins[0], vmag2);
+	gs[3] = jphy.getEnergyFromTemperature(gtemp, ins[0], vmag2);
 
 	j_real dvmag2[NVARS]; // derivative of vmag2 w.r.t. ins
-	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0]);
+	dvmag2[0] = -2.0*dimDotProduct(&gs[1],&gs[1])/(ins[0]*ins[0]*ins[0])
+		+ 2.0/(ins[0]*ins[0]) * (gs[1]*dgs[NVARS+0] + gs[2]*dgs[2*NVARS+0]);
 	for(int i = 1; i < NDIM+1; i++)
-		dvmag2[i] = 1.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
+		dvmag2[i] = 2.0/(ins[0]*ins[0]) * gs[i] * (-1.0);
 	dvmag2[NDIM+1] = 0;
 
-	// dummy dT for the next function call
-	j_real dT[NVARS];
-	for(int i = 0; i < NVARS; i++) dT[i] = 0;
-
-	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(walltemperature, ins[0], vmag2,
+	jphy.getJacobianEnergyFromJacobiansTemperatureVmag2(gtemp, ins[0], vmag2,
 	                                                    dT, dvmag2, &dgs[3*NVARS]);
 }
 
-- 
2.43.0


From 051cd450d0fc0bf3f5dbf523409b4b18c34eff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 04/26] fix: ghost state of the subsonic inflow boundary

The Riemann invariant is vn - 2c/(gamma-1); the ghost velocity has to enter the
domain and to give the prescribed total temperature.
---
 src/spatial/abc.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spatial/abc.cpp b/src/spatial/abc.cpp
index 0893e88..bffbfce 100644
--- a/src/spatial/abc.cpp
+++ b/src/spatial/abc.cpp
@@ -154,7 +154,7 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 {
 	const scalar ci = phy.getSoundSpeedFromConserved(ins);
 	// Outgoing Riemann invariant
-	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - ci/(2*phy.g - 1.0);
+	const scalar Rminus = dimDotProduct(&ins[1],&n[0])/ins[0] - 2.0*ci/(phy.g - 1.0);
 	// Square of stagnation speed of sound
 	const scalar co2 = ci*ci + (phy.g-1.0)/2.0 * dimDotProduct(&ins[1],&ins[1])/(ins[0]*ins[0]);
 
@@ -165,11 +165,12 @@ void InFlow<scalar,j_real>::computeGhostState(const scalar *const ins, const sca
 	const scalar tg = ttotal*cg*cg/co2;
 	const scalar pg = ptotal * pow(tg/ttotal, phy.g/(phy.g-1.0));
 	gs[0] = phy.getDensityFromPressureTemperature(pg,tg);
-	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(co2 - cg*cg));
+	// Velocity magnitude from the prescribed total temperature
+	const scalar vgmag = sqrt(2.0/(phy.g-1.0)*(ttotal - tg))/phy.Minf;
 
-	// Get velocity components of ghost state assuming it's (anti-)parallel to the face normal
+	// Get velocity components of ghost state assuming it's anti-parallel to the (outward) face normal
 	scalar vg[NDIM];
-	getComponentsCartesian<scalar>(vgmag, n, vg);
+	getComponentsCartesian<scalar>(-vgmag, n, vg);
 	for(int i = 0; i < NDIM; i++)
 		gs[i+1] = gs[0]*vg[i];
 	gs[NDIM+1] = phy.getEnergyFromPressure(pg,gs[0],vgmag*vgmag);
-- 
2.43.0


From c88faa38f70b37e449fb0ed707746f739fb1187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 05/26] fix: reorder volume region markers together with the
 cells

---
 src/mesh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 9ea44b5..284c760 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -88,11 +88,14 @@ void UMesh<scalar,ndim>::reorder_cells(const PetscInt *const permvec)
 	const amat::Array2d<fint> tempelems = inpoel;
 	const std::vector<int> tempnnode = nnode;
 	const std::vector<int> tempnfael = nfael;
+	const amat::Array2d<int> tempregions = vol_regions;
 
 	for(fint i = 0; i < nelem; i++)
 	{
 		for(int j = 0; j < inpoel.cols(); j++)
 			inpoel(i,j) = tempelems(permvec[i],j);
+		for(int j = 0; j < vol_regions.cols(); j++)
+			vol_regions(i,j) = tempregions(permvec[i],j);
 		nnode[i] = tempnnode[permvec[i]];
 		nfael[i] = tempnfael[permvec[i]];
 	}
-- 
2.43.0


From 2f2ddfa968569fa996504620ba67674cbe253830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 06/26] fix: Array2d self-assignment must keep the contents

---
 src/utilities/aarray2d.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/utilities/aarray2d.cpp b/src/utilities/aarray2d.cpp
index de3c41d..4b48884 100644
--- a/src/utilities/aarray2d.cpp
+++ b/src/utilities/aarray2d.cpp
@@ -44,9 +44,7 @@ Array2d<T>::Array2d(Array2d<T>&& other)
 template <typename T>
 Array2d<T>& Array2d<T>::operator=(const Array2d<T>& rhs)
 {
-#ifdef DEBUG
 	if(this==&rhs) return *this;		// check for self-assignment
-#endif
 	nrows = rhs.nrows;
 	ncols = rhs.ncols;
 	size = nrows*ncols;
-- 
2.43.0


From e65b306f8a1746bd8acdb92c4eb46891c8c092f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 07/26] fix: faces between subdomains are connectivity faces
 even when all their points are on the boundary

---
 src/mesh/meshpartitioning.cpp | 42 ++++++-----------------------------
 src/mesh/meshpartitioning.hpp | 12 +---------
 2 files changed, 8 insertions(+), 46 deletions(-)

diff --git a/src/mesh/meshpartitioning.cpp b/src/mesh/meshpartitioning.cpp
index 2ff91f2..587f7d1 100644
--- a/src/mesh/meshpartitioning.cpp
+++ b/src/mesh/meshpartitioning.cpp
@@ -73,20 +73,16 @@ UMesh<freal,2> ReplicatedGlobalMeshPartitioner::restrictMeshToPartitions() const
 	 */
 	extractbfaces(pointGlob2Loc, lm);
 
-	/*! 5. Compute local esuel and mark elements that neighbor and points that lie on
-	 *     a physical boundary face
-	 */
+	//! 5. Compute local esuel
 	lm.compute_elementsSurroundingPoints();
 	lm.compute_elementsSurroundingElements();
-	const std::vector<bool> isPhyBounPoint = markLocalPhysicalBoundaryPoints(lm);
-	assert(isPhyBounPoint.size() == static_cast<size_t>(lm.npoin));
 
 	/*! 6. Use local esuel, the global esuel and local-to-global elem map 
 	 *     to build the connectivity face structure. Use the fact that ordering of faces within
 	 *     elements is not changed during restriction to assign global face indices.
 	 */
 	const std::vector<std::vector<EIndex>> connElemLocalFace
-		= getConnectivityFaceEIndices(lm, isPhyBounPoint);
+		= getConnectivityFaceEIndices(lm);
 
 	lm.nconnface = 0;
 	for(fint i = 0; i < lm.nelem; i++)
@@ -275,25 +271,9 @@ void ReplicatedGlobalMeshPartitioner::extractbfaces(const std::map<fint,fint>& p
 			lm.bface(iface,j) = tbfaces[iface][j];
 }
 
-std::vector<bool>
-ReplicatedGlobalMeshPartitioner::
-markLocalPhysicalBoundaryPoints(const UMesh<freal,2>& lm) const
-{
-	std::vector<bool> isBounPoin(lm.npoin,false);
-
-	for(fint iface = 0; iface < lm.nbface; iface++)
-	{
-		for(int inode = 0; inode < lm.nnofa; inode++) {
-			isBounPoin[lm.bface(iface,inode)] = true;
-		}
-	}
-	return isBounPoin;
-}
-
 std::vector<std::vector<EIndex>>
 ReplicatedGlobalMeshPartitioner::
-getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
-                            const std::vector<bool>& isPhyBounPoint) const
+getConnectivityFaceEIndices(const UMesh<freal,2>& lm) const
 {
 	const int rank = get_mpi_rank(MPI_COMM_WORLD);
 
@@ -303,23 +283,15 @@ getConnectivityFaceEIndices(const UMesh<freal,2>& lm,
 
 	for(fint iel = 0; iel < lm.nelem; iel++)
 	{
-		// Check whether face points are physical boundary points to identify connectivity faces
+		// Faces without a local neighbour are connectivity faces unless they are physical boundary faces
 		for(EIndex iface = 0; iface < lm.nfael[iel]; iface++)
 		{
 			if(lm.esuel(iel,iface) == -1)
 			{
-				bool isconnface = false;
-				/* Get subdomain index of the points on this face.
-				 * If at least one point is not on a physical boundary, this is a connectivity face.
+				/* There is no cell across this face in this subdomain. If there is one in the global
+				 * mesh, it belongs to another subdomain.
 				 */
-				for(FIndex inode = 0; inode < lm.nnofa; inode++)
-				{
-					const fint locpoint = lm.inpoel(iel,lm.getNodeEIndex(iel,iface,inode));
-					if(!isPhyBounPoint[locpoint]) {
-						isconnface = true;
-						break;
-					}
-				}
+				const bool isconnface = gm.esuel(lm.globalElemIndex[iel],iface) < gm.nelem;
 				if(isconnface) {
 					connElemLocalFace[iel].push_back(iface);
 				}
diff --git a/src/mesh/meshpartitioning.hpp b/src/mesh/meshpartitioning.hpp
index 999c42d..d519783 100644
--- a/src/mesh/meshpartitioning.hpp
+++ b/src/mesh/meshpartitioning.hpp
@@ -59,20 +59,10 @@ protected:
 	 */
 	void extractbfaces(const std::map<fint,fint>& pointGlobal2Local, UMesh<freal,NDIM>& lm) const;
 
-	/// Marks points of this subdomain which are adjacent to physical boundary faces
-	/** As a by-product, also computes the number of physical boundary points in the local mesh in
-	 * nbpoin.
-	 * \return The vector of point marks
-	 */
-	std::vector<bool> markLocalPhysicalBoundaryPoints(const UMesh<freal,NDIM>& lm) const;
-
 	/// Returns a list of containing, for each local element, face E-indices that are connectivity
 	///  faces, if any
-	/** \param[in] isPhyBounPoint For each local point, whether or not it lies on a physical boundary
-	 */
 	std::vector<std::vector<EIndex>>
-	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm,
-	                            const std::vector<bool>& isPhyBounPoint) const;
+	getConnectivityFaceEIndices(const UMesh<freal,NDIM>& lm) const;
 
 	/// The global mesh to partition
 	const UMesh<freal,NDIM>& gm;
-- 
2.43.0


From 81dc9517d29c963cf8255ee9d85a4c5095108bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 08/26] fix: read boundary ghost values in the Barth-Jespersen
 and Venkatakrishnan limiters from the ghost array

The limiters indexed the array of cell values with the index of a physical
boundary ghost cell, past its end.
---
 src/spatial/limitedlinearreconstruction.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spatial/limitedlinearreconstruction.cpp b/src/spatial/limitedlinearreconstruction.cpp
index 4960f24..6ea2641 100644
--- a/src/spatial/limitedlinearreconstruction.cpp
+++ b/src/spatial/limitedlinearreconstruction.cpp
@@ -132,7 +132,10 @@ void BarthJespersenLimiter<scalar,nvars>::compute_face_values(const MVector<scal
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells are not part of u
+				const scalar uj = jel < m->gnelem()+m->gnConnFace() ?
+					u(jel,ivar) : ug(jel-m->gnelem()-m->gnConnFace(),ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
@@ -227,7 +230,10 @@ void VenkatakrishnanLimiter<scalar,nvars>
 			for(int j = 0; j < m->gnfael(iel); j++)
 			{
 				const fint jel = m->gesuel(iel,j);
-				const scalar dui = u(jel,ivar)-u(iel,ivar);
+				// physical boundary ghost cells are not part of u
+				const scalar uj = jel < m->gnelem()+m->gnConnFace() ?
+					u(jel,ivar) : ug(jel-m->gnelem()-m->gnConnFace(),ivar);
+				const scalar dui = uj-u(iel,ivar);
 				if(dui > duimax) duimax = dui;
 				if(dui < duimin) duimin = dui;
 			}
-- 
2.43.0


From e6c3ff149f5e7e5692610a2fd91eab75a2423e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 09/26] fix: boundary faces whose nodes all lie on another cell
 as well

---
 src/mesh/mesh.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mesh/mesh.cpp b/src/mesh/mesh.cpp
index 284c760..354ba9c 100644
--- a/src/mesh/mesh.cpp
+++ b/src/mesh/mesh.cpp
@@ -644,15 +644,23 @@ std::vector<std::pair<fint,EIndex>> UMesh<scalar,ndim>::compute_phyBFaceNeighbor
 			intersection.resize(it-temp.begin());
 		}
 
-		if(intersection.size() > 1) {
-			throw std::logic_error("More than one neighboring element found for bface "
-			                       + std::to_string(iface));
-		}
+		// Find the EIndex of the face. Note that an element which contains all points of the face
+		//  need not have it as one of its own faces.
+		interiorelem[iface].second = -1;
+		for(const fint ielem : intersection)
+		{
+			const EIndex eface = getFaceEIndex(true, iface, ielem);
+			if(eface < 0)
+				continue;
 
-		interiorelem[iface].first = intersection[0];
+			if(interiorelem[iface].second >= 0) {
+				throw std::logic_error("More than one neighboring element found for bface "
+				                       + std::to_string(iface));
+			}
 
-		// find the EIndex of the face
-		interiorelem[iface].second = getFaceEIndex(true, iface, intersection[0]);
+			interiorelem[iface].first = ielem;
+			interiorelem[iface].second = eface;
+		}
 		assert(interiorelem[iface].second >= 0);
 	}
 
-- 
2.43.0


From a9424f32026229977b50f7a1bd091f54b6f65ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 10/26] fix: matrix-free Jacobian gives zero for the zero
 vector instead of dividing by its norm

---
 src/linalg/alinalg.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 344fa4c..68fa7a1 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -152,13 +152,19 @@ StatusCode MatrixFreeSpatialJacobian<nvars>::apply(const Vec x, Vec y) const
 	const UMesh<freal,NDIM> *const m = spatial->mesh();
 	//ierr = VecSet(y, 0.0); CHKERRQ(ierr);
 
+	PetscScalar xnorm = 0;
+	ierr = VecNorm(x, NORM_2, &xnorm); CHKERRQ(ierr);
+
+	// There is no direction to difference along for a zero vector
+	if(xnorm == 0.0) {
+		ierr = VecSet(y, 0.0); CHKERRQ(ierr);
+		return ierr;
+	}
+
 	Vec aux, yg;
 	ierr = VecDuplicate(u, &aux); CHKERRQ(ierr);
 	ierr = VecDuplicate(res, &yg); CHKERRQ(ierr);
 
-	PetscScalar xnorm = 0;
-	ierr = VecNorm(x, NORM_2, &xnorm); CHKERRQ(ierr);
-
 #ifdef DEBUG
 	if(xnorm < 10.0*std::numeric_limits<freal>::epsilon())
 		SETERRQ(PETSC_COMM_SELF, PETSC_ERR_FP,
-- 
2.43.0


From 4bccdef1766549e57e6704950c50fdd58dcddfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 11/26] fix: TVD Runge-Kutta time stepping: sign and state of
 the residual in the stages, global minimum time step, ghost update

---
 src/ode/aodesolver.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/ode/aodesolver.cpp b/src/ode/aodesolver.cpp
index 9850248..56afe39 100644
--- a/src/ode/aodesolver.cpp
+++ b/src/ode/aodesolver.cpp
@@ -691,13 +691,9 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	int step = 0;
 	freal time = 0;   //< Physical time elapsed
 
-	// Stage solution vector
-	MVector<freal> ustage(m->gnelem(),nvars);
-#pragma omp parallel for simd default(shared)
-	for(fint iel = 0; iel < m->gnelem(); iel++)
-		for(int ivar = 0; ivar < nvars; ivar++)
-			ustage(iel,ivar) = u(iel,ivar);
-	
+	// Solution at the beginning of the time step
+	MVector<freal> ustart(m->gnelem(),nvars);
+
 	struct timeval time1, time2;
 	gettimeofday(&time1, NULL);
 	double initialwtime = (double)time1.tv_sec + (double)time1.tv_usec * 1.0e-6;
@@ -707,6 +703,11 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 	{
 		freal dtmin=0;      //< Time step
 
+#pragma omp parallel for simd default(shared)
+		for(fint iel = 0; iel < m->gnelem(); iel++)
+			for(int ivar = 0; ivar < nvars; ivar++)
+				ustart(iel,ivar) = u(iel,ivar);
+
 		for(int istage = 0; istage < order; istage++)
 		{
 #pragma omp parallel for simd default(shared)
@@ -715,7 +716,8 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 					residual(iel,i) = 0;
 			}
 
-			// update residual
+			// update residual at the latest stage
+			// NOTE: This is the negative of the net outgoing flux.
 			ierr = space->compute_residual(uvec, rvec, true, dtmvec); CHKERRQ(ierr);
 
 			// update time step for the first stage of each time step
@@ -723,8 +725,9 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 			{
 				const PetscScalar *dtm;
 				ierr = VecGetArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
-				dtmin = *std::min_element(dtm, dtm+m->gnelem());
+				const freal locdtmin = *std::min_element(dtm, dtm+m->gnelem());
 				ierr = VecRestoreArrayRead(dtmvec, &dtm); CHKERRQ(ierr);
+				MPI_Allreduce(&locdtmin, &dtmin, 1, FVENS_MPI_REAL, MPI_MIN, PETSC_COMM_WORLD);
 			}
 
 			if(!std::isfinite(dtmin))
@@ -735,17 +738,15 @@ StatusCode TVDRKSolver<nvars>::solve(const freal finaltime)
 			{
 				for(int i = 0; i < nvars; i++)
 				{
-					ustage(iel,i) = tvdcoeffs(istage,0)*u(iel,i)
-						          + tvdcoeffs(istage,1)*ustage(iel,i)
-						          - tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
+					u(iel,i) = tvdcoeffs(istage,0)*ustart(iel,i)
+					         + tvdcoeffs(istage,1)*u(iel,i)
+					         + tvdcoeffs(istage,2) * dtmin*cfl/m->garea(iel)*residual(iel,i);
 				}
 			}
-		}
 
-#pragma omp parallel for simd default(shared)
-		for(fint iel = 0; iel < m->gnelem(); iel++)
-			for(int ivar = 0; ivar < nvars; ivar++)
-				u(iel,ivar) = ustage(iel,ivar);
+			ierr = VecGhostUpdateBegin(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+			ierr = VecGhostUpdateEnd(uvec, INSERT_VALUES, SCATTER_FORWARD); CHKERRQ(ierr);
+		}
 
 
 		if(step % 10 == 0)
-- 
2.43.0


From 3195d01e513a9767ed83d31241d7fd383266374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 12/26] fix: Green-Gauss gradients accumulated boundary and
 inter-process faces into shared cells without atomics

---
 src/spatial/agradientschemes.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spatial/agradientschemes.cpp b/src/spatial/agradientschemes.cpp
index 8127070..337a124 100644
--- a/src/spatial/agradientschemes.cpp
+++ b/src/spatial/agradientschemes.cpp
@@ -113,7 +113,14 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 					* m->gfacemetric(iface,2);
 
 				for(int idim = 0; idim < NDIM; idim++)
+				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
+				}
 			}
 		}
 
@@ -206,6 +213,11 @@ void GreenGaussGradients<scalar,nvars>::compute_gradients(
 
 				for(int idim = 0; idim < NDIM; idim++)
 				{
+#ifdef USE_ADOLC
+#pragma omp critical
+#else
+#pragma omp atomic update
+#endif
 					grad[ielem](idim,ivar) += (ut * m->gfacemetric(iface,idim))*areainv1;
 				}
 			}
-- 
2.43.0


From 68282e14a173992be742eb75cbff2b3210112c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 13/26] fix: Jacobian of the Dirichlet boundary flux of the
 diffusion solver includes the ghost state

---
 src/spatial/diffusion.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index 628d1bc..acfe3a0 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -299,16 +299,21 @@ void DiffusionMA<nvars>
 	const freal len = m->gfacemetric(iface,2);
 
 	freal du[nvars*nvars];
+	// derivative of the ghost state 2*bval-u_l (see compute_boundary_state)
+	freal dug[nvars*nvars];
 	for(int i = 0; i < nvars; i++) {
-		for(int j = 0; j < nvars; j++)
+		for(int j = 0; j < nvars; j++) {
 			du[i*nvars+j] = 0;
+			dug[i*nvars+j] = 0;
+		}
 		du[i*nvars+i] = 1.0;
+		dug[i*nvars+i] = -1.0;
 	}
 
 	freal grad[NDIM][nvars], dgradl[NDIM][nvars][nvars], dgradr[NDIM][nvars][nvars];
 
 	// Compute the face gradient and its Jacobian; we don't actually need the gradient, however
-	getFaceGradientAndJacobian_thinLayer(&rc(lelem), &rcbp(ibpface), ul, ul, du, du,
+	getFaceGradientAndJacobian_thinLayer(&rc(lelem), &rcbp(ibpface), ul, ul, du, dug,
 	                                     grad, dgradl, dgradr);
 
 	L = Eigen::Matrix<freal,nvars,nvars,Eigen::RowMajor>::Zero();
@@ -316,7 +321,8 @@ void DiffusionMA<nvars>
 	{
 		// compute nu*(d(-grad u)/du_l . n) * l
 		for(int idim = 0; idim < NDIM; idim++)
-			L(ivar,ivar) += dgradl[idim][ivar][ivar]*m->gfacemetric(iface,idim);
+			L(ivar,ivar) += (dgradl[idim][ivar][ivar] + dgradr[idim][ivar][ivar])
+				*m->gfacemetric(iface,idim);
 		L(ivar,ivar) *= (diffusivity*len);
 	}
 }
-- 
2.43.0


From 1e9e435d206a694427df4b1764f185bf00e6711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 14/26] fix: nodal averages of the flow output were divided by
 the area once per variable

---
 src/spatial/aoutput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 113abb9..66e006b 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -115,11 +115,11 @@ StatusCode FlowOutput::postprocess_point(const Vec uvec,
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < NVARS; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
-			}
+			areasum(m->ginpoel(ielem,inode)) += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 46cdb5b807e9b1feffca60c8f215fdd4390a88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 15/26] fix: cell offsets of hybrid meshes in writeMeshToVtu

---
 src/spatial/aoutput.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index 66e006b..c46267d 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -586,8 +586,11 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
-	for(int i = 0; i < m.gnelem(); i++)
-		out << "\t\t\t\t" << m.gnnode(i)*(i+1) << '\n';
+	int totalnodes = 0;
+	for(int i = 0; i < m.gnelem(); i++) {
+		totalnodes += m.gnnode(i);
+		out << "\t\t\t\t" << totalnodes << '\n';
+	}
 	out << "\t\t\t</DataArray>\n";
 	out << "\t\t\t<DataArray type=\"Int32\" Name=\"types\" Format=\"ascii\">\n";
 	for(int i = 0; i < m.gnelem(); i++)
-- 
2.43.0


From 82606412c51f1251e2e3d291907ea25baa0483aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 16/26] fix: nodal averages of the scalar output used the
 stride of the flow variables

---
 src/spatial/diffusion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spatial/diffusion.cpp b/src/spatial/diffusion.cpp
index acfe3a0..2e829f0 100644
--- a/src/spatial/diffusion.cpp
+++ b/src/spatial/diffusion.cpp
@@ -358,16 +358,16 @@ StatusCode scalar_postprocess_point(const UMesh<freal,NDIM> *const m, const Vec
 	StatusCode ierr = 0;
 	const PetscScalar* uarr;
 	ierr = VecGetArrayRead(uvec, &uarr); CHKERRQ(ierr);
-	Eigen::Map<const MVector<freal>> u(uarr, m->gnelem(), NVARS);
+	const amat::Array2dView<freal> u(uarr, m->gnelem(), nvars);
 
 	for(fint ielem = 0; ielem < m->gnelem(); ielem++)
 	{
 		for(int inode = 0; inode < m->gnnode(ielem); inode++)
+		{
 			for(int ivar = 0; ivar < nvars; ivar++)
-			{
 				up(m->ginpoel(ielem,inode),ivar) += u(ielem,ivar)*m->garea(ielem);
-				areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
-			}
+			areasum[m->ginpoel(ielem,inode)] += m->garea(ielem);
+		}
 	}
 
 	for(fint ipoin = 0; ipoin < m->gnpoin(); ipoin++)
-- 
2.43.0


From 74915a5ef23e558207f7dcc6e7eb5961066ca223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 17/26] fix: SU2 reader lost the marker following one without
 faces

---
 src/mesh/meshreaders.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index 83a1484..ac6ebed 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -368,8 +368,9 @@ MeshData readSU2(const std::string mfile)
 				fin >> bfacs[ib][iface][inofa];
 		}
 
-		//clear newline, except the last one because it may not exist
-		if(ib < nbmarkers-1)
+		// clear newline, except the last one because it may not exist;
+		//  if there are no faces, it has already been read
+		if(ib < nbmarkers-1 && numfacs[ib] > 0)
 			std::getline(fin,dum);
 	}
 
-- 
2.43.0


From c1d25123f18c0ad10f94e84a87fe7a1e5c88817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 18/26] fix: Gmsh reader left tags undefined when elements have
 different numbers of tags

---
 src/mesh/meshreaders.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/meshreaders.cpp b/src/mesh/meshreaders.cpp
index ac6ebed..c3fc3df 100644
--- a/src/mesh/meshreaders.cpp
+++ b/src/mesh/meshreaders.cpp
@@ -97,6 +97,7 @@ MeshData readGmsh2(const std::string mfile)
 	m.ndtag = 0; m.nbtag = 0;
 	infile >> nelm;
 	amat::Array2d<fint > elms(nelm,width_elms);
+	elms.zeros();          // tags that some elements do not have
 	m.nbface = 0; m.nelem = 0;
 	std::vector<int> nnodes(nelm,0);
 	std::vector<int> nfaels(nelm,0);
-- 
2.43.0


From 00d9cc2a2d8a910a742e0fe19df43af7d6c6d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 19/26] fix: writeMeshToVtu wrote the cell-centered node of
 9-node quads as part of 8-node cells

---
 src/spatial/aoutput.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spatial/aoutput.cpp b/src/spatial/aoutput.cpp
index c46267d..320b7bf 100644
--- a/src/spatial/aoutput.cpp
+++ b/src/spatial/aoutput.cpp
@@ -580,7 +580,8 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	for(int i = 0; i < m.gnelem(); i++)
 	{
 		out << "\t\t\t\t";
-		for(int j = 0; j < m.gnnode(i); j++)
+		// leave out the cell-centered node of 9-node quads
+		for(int j = 0; j < (m.gnnode(i) == 9 ? 8 : m.gnnode(i)); j++)
 			out << m.ginpoel(i,j) << " ";
 		out << '\n';
 	}
@@ -588,7 +589,7 @@ void writeMeshToVtu(std::string fname, const fvens::UMesh<freal,NDIM>& m)
 	out << "\t\t\t<DataArray type=\"UInt32\" Name=\"offsets\" Format=\"ascii\">\n";
 	int totalnodes = 0;
 	for(int i = 0; i < m.gnelem(); i++) {
-		totalnodes += m.gnnode(i);
+		totalnodes += (m.gnnode(i) == 9 ? 8 : m.gnnode(i));
 		out << "\t\t\t\t" << totalnodes << '\n';
 	}
 	out << "\t\t\t</DataArray>\n";
-- 
2.43.0


From 5b61ab75bf97c96a2d87a96e856c24d8c559178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 20/26] fix: usestarter was undefined for control files without
 an initialization section

---
 src/utilities/controlparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/controlparser.cpp b/src/utilities/controlparser.cpp
index b5a72f0..76af5fd 100644
--- a/src/utilities/controlparser.cpp
+++ b/src/utilities/controlparser.cpp
@@ -72,6 +72,7 @@ FlowParserOptions parse_flow_controlfile(const int argc, const char *const argv[
 	opts.useconstvisc = false;
 	opts.viscsim = false;
 	opts.order2 = true;
+	opts.usestarter = 0;
 	opts.Reinf=0; opts.Tinf=0; opts.Pr=0; 
 	opts.time_integrator = "NONE";
 
-- 
2.43.0


From 60d013a60a1971de4e742b61689100e0b5ca4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 21/26] fix: parsePetscCmd_string dropped the last character of
 strings of the maximum length

---
 src/utilities/aoptionparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities/aoptionparser.cpp b/src/utilities/aoptionparser.cpp
index c2b586b..00d724f 100644
--- a/src/utilities/aoptionparser.cpp
+++ b/src/utilities/aoptionparser.cpp
@@ -108,7 +108,7 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
 	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen+1, &set);
 	petsc_throw(ierr, std::string("Could not get string ") + std::string(optionname));
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
-- 
2.43.0


From 82a841c9f17d3dde73f9b91b9d8074eaecb501d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 22/26] fix: run_output read a wall marker that need not exist
 and wrote past its surface buffer

---
 src/utilities/casesolvers.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utilities/casesolvers.cpp b/src/utilities/casesolvers.cpp
index 65c8b9f..4ba7fc6 100644
--- a/src/utilities/casesolvers.cpp
+++ b/src/utilities/casesolvers.cpp
@@ -147,15 +147,24 @@ FlowSolutionFunctionals FlowCase::run_output(const bool surface_file_needed,
 			std::cout << "FlowCase: Files will not be written in multi-process runs.\n";
 	}
 	
-	MVector<freal> output; output.resize(m.gnelem(),NDIM+2);
 	std::vector<GradBlock_t<freal,NDIM,NVARS>> grad;
 	grad.resize(m.gnelem());
 	prob->getGradients(u, &grad[0]);
 
 	ConstVecHandler<freal> uh(u);
 	const amat::Array2dView<freal> ua(uh.getArray(), m.gnelem(), NVARS);
-	const std::tuple<freal,freal,freal> fnls 
-		{ prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output)};
+
+	// The integrated quantities are zero when no wall marker is given
+	std::tuple<freal,freal,freal> fnls {0,0,0};
+	if(!opts.lwalls.empty()) {
+		fint nwallfaces = 0;
+		for(fint i = m.gPhyBFaceStart(); i < m.gPhyBFaceEnd(); i++)
+			if(m.gbtags(i,0) == opts.lwalls[0])
+				nwallfaces++;
+
+		MVector<freal> output; output.resize(nwallfaces,NDIM+2);
+		fnls = prob->computeSurfaceData(ua, &grad[0], opts.lwalls[0], output);
+	}
 
 	delete prob;
 
-- 
2.43.0


From 2617129b5153a57630ef0e5e22e94f24ab4a83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 23/26] fix: compareMeshes read out of range for meshes of
 different sizes and reported differing lists as the same

---
 src/mesh/ameshutils.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/mesh/ameshutils.cpp b/src/mesh/ameshutils.cpp
index d8fc58e..3569e02 100644
--- a/src/mesh/ameshutils.cpp
+++ b/src/mesh/ameshutils.cpp
@@ -201,20 +201,20 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 	isequal[0] = (m1.gnelem() == m2.gnelem());
 	isequal[1] = (m1.gnpoin() == m2.gnpoin());
 	isequal[2] = (m1.gnbface() == m2.gnbface());
-	isequal[3] = true;
-	isequal[4] = true;
-	isequal[5] = true;
-	isequal[6] = true;
-	isequal[7] = true;
-
-	for(fint i = 0; i < m1.gnelem(); i++) {
+	// Lists of different lengths are different
+	isequal[3] = isequal[0];
+	isequal[4] = isequal[0];
+	isequal[5] = isequal[0];
+	isequal[6] = isequal[2] && (m1.gnbtag() == m2.gnbtag());
+	isequal[7] = isequal[1];
+
+	for(fint i = 0; i < m1.gnelem() && isequal[0]; i++) {
+		if(m1.gnfael(i) != m2.gnfael(i))
+			isequal[4] = false;
 		if(m1.gnnode(i) != m2.gnnode(i)) {
 			isequal[3] = false;
-			break;
-		}
-		if(m1.gnfael(i) != m2.gnfael(i)) {
-			isequal[4] = false;
-			break;
+			isequal[5] = false;
+			continue;
 		}
 		for(int j = 0; j < m1.gnnode(i); j++) {
 			if(m1.ginpoel(i,j) != m2.ginpoel(i,j)) {
@@ -223,7 +223,7 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 			}
 		}
 	}
-	for(fint i = 0; i < m1.gnpoin(); i++) {
+	for(fint i = 0; i < m1.gnpoin() && isequal[7]; i++) {
 		for(int j = 0; j < NDIM; j++)
 			if(std::abs(m1.gcoords(i,j)-m2.gcoords(i,j)) > std::numeric_limits<freal>::epsilon())
 			{
@@ -232,7 +232,7 @@ std::array<bool,8> compareMeshes(const UMesh<freal,NDIM>& m1, const UMesh<freal,
 			}
 	}
 	static_assert(NDIM==2, "Only 2D is currently supported!");  // change the hard-coded "2" below before removing this line
-	for(fint i = 0; i < m1.gnbface(); i++)
+	for(fint i = 0; i < m1.gnbface() && isequal[6]; i++)
 		for(int j = 0; j < 2 +m1.gnbtag(); j++)
 			if(m1.gbface(i,j) != m2.gbface(i,j)) {
 				isequal[6] = false;
-- 
2.43.0


From d44533e700c8298af8e42d40f2f65a3847705f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 24/26] fix: convertformat went on without its arguments

---
 src/utilities/convertformat.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utilities/convertformat.cpp b/src/utilities/convertformat.cpp
index 9bedaf5..6cf0330 100644
--- a/src/utilities/convertformat.cpp
+++ b/src/utilities/convertformat.cpp
@@ -10,6 +10,7 @@ int main(int argc, char* argv[])
 {
 	if(argc < 4) {
 		cout << "Need: 1. Input mesh file, 2. Output mesh file 3. Output format.\n" << endl;
+		return -1;
 	}
 	string confilename(argv[1]);
 	string inmesh = argv[1], outmesh = argv[2], outformat = argv[3];
-- 
2.43.0


From e5911f0a6b963bef2a4bdc893d4078cb5a0b248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 25/26] fix: skin friction of constant-viscosity flow used
 Sutherland's viscosity

---
 src/spatial/flow_spatial.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spatial/flow_spatial.cpp b/src/spatial/flow_spatial.cpp
index c06719d..78c9bf6 100644
--- a/src/spatial/flow_spatial.cpp
+++ b/src/spatial/flow_spatial.cpp
@@ -223,7 +223,10 @@ FlowFV_base<scalar>::computeSurfaceData (const amat::Array2dView<scalar> u,
 			 */
 
 			// non-dim viscosity / Re_inf
-			const scalar muhat = physics.getViscosityCoeffFromConserved(urec);
+			const scalar muhat = pconfig.const_visc ?
+					physics.getConstantViscosityCoeff()
+				:
+					physics.getViscosityCoeffFromConserved(urec);
 
 			// velocity gradient tensor
 			scalar gradu[NDIM][NDIM];
-- 
2.43.0


From 348d932dd2222a4e5976706cf57f5b5e288ca0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 26/26] fix: system matrix preallocation on processes with
 fewer cells than couplings

PETSc refuses row lengths beyond the number of local columns, so the implicit
solver could not be set up when a process had only a few cells.
---
 src/linalg/alinalg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linalg/alinalg.cpp b/src/linalg/alinalg.cpp
index 68fa7a1..9cf27e2 100644
--- a/src/linalg/alinalg.cpp
+++ b/src/linalg/alinalg.cpp
@@ -1,4 +1,5 @@
 #include "alinalg.hpp"
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <cstring>
@@ -49,7 +50,8 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		std::vector<PetscInt> dnnz(m->gnelem());
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
-			dnnz[iel] = m->gnfael(iel)+1;
+			// no more blocks than there are local columns
+			dnnz[iel] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem());
 		}
 
 		std::vector<PetscInt> onnz(m->gnelem(),0);
@@ -66,7 +68,7 @@ StatusCode setJacobianPreallocation(const UMesh<freal,NDIM> *const m, Mat A)
 		for(fint iel = 0; iel < m->gnelem(); iel++)
 		{
 			for(int i = 0; i < nvars; i++) {
-				dnnz[iel*nvars+i] = (m->gnfael(iel)+1)*nvars;
+				dnnz[iel*nvars+i] = std::min<PetscInt>(m->gnfael(iel)+1, m->gnelem())*nvars;
 			}
 		}
 
-- 
2.43.0

