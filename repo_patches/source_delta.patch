From 28947955063d29f4302a85c5fe942f8010cc9f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 01/49] fix: TimeControl takes exactly the requested number of
 steps and ends exactly at the end time

---
 src/lib/FESolver.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..068ee3f 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -39,16 +39,21 @@ bool TimeControl::nextStep(double delta) {
   if (currentTime >= endTime) {
     return false;    
   }
-  // if delta bigger than endTime-currentTime
-  if (currentTime + delta >= endTime) {
+  // if delta bigger than endTime-currentTime. Rounding errors accumulated in currentTime shouldn't
+  // lead to a superfluous step, that's why a small fraction of delta is neglected here.
+  if (currentTime + delta * (1.0 + 1.0e-6) >= endTime) {
     currentTimeDelta = endTime - currentTime;
-  } else if (currentTime + 2*delta >= endTime) {
-    currentTimeDelta = (endTime - currentTime)/2.0;
+    // finish exactly at endTime
+    currentTime = endTime;
   } else {
-    currentTimeDelta = delta;
+    if (currentTime + 2*delta >= endTime) {
+      currentTimeDelta = (endTime - currentTime)/2.0;
+    } else {
+      currentTimeDelta = delta;
+    }
+    currentTime += currentTimeDelta;
   }
   DCHECK (currentTimeDelta > 0.0);
-  currentTime += currentTimeDelta;
   currentEquilibriumStep = 0;
   LOG(INFO) << "***** Loadstep = " << getCurrentStep() << ", Time = "
       << getCurrentTime() << " of " << getEndTime();
-- 
2.43.0


From c41fa3ef5b1beaec35e47c04871d236b96f0a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 02/49] fix: TimeControl::setStartTime moves the clock to the
 start time

---
 src/lib/FESolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 068ee3f..18bfe2a 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -108,15 +108,19 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime != startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime != startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
+  // time is counted from start time (while the solution isn't running yet)
+  if (currentTime == startTime) {
+    currentTime = _startTime;
+  }
   startTime = _startTime;
 }
 
-- 
2.43.0


From a2c2bf79bd748a918b945ba9e0c6974150abf590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 03/49] fix: GaussDenseEquationSolver::substituteEquations
 takes the size of the matrix it is given

---
 src/lib/math/EquationSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..2ba46d4 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -43,7 +43,10 @@ void GaussDenseEquationSolver::substituteEquations(math::SparseSymMatrix* matrix
   // because this is simplest solver dedicated to perform functional tests
   //
   CHECK(nrhs == 1) << "GaussDenseEquationSolver support only 1 set of rhs values";
-  
+
+  // the solver can be shared: the last factorized matrix may be of a different size
+  nEq = matrix->nRows();
+  CHECK(nEq < 1000) << "GaussDenseEquationSolver works only with number of equations less than 1000";
 
   if (matA.dM() == nEq && matA.dN() == nEq) {
     matA.zero();
-- 
2.43.0


From 8bc76eb51b1cde0088ac82668ea49f4abb6ee33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 04/49] fix: BlockSparseSymMatrix made from another one
 reported twice as many rows

---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From 1e93a1a479988ad517bc5f131a3b70ca09832d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 05/49] fix: BaseSparseMatrix::setSparsityInfo drops values
 that belong to the old sparsity

---
 src/lib/math/SparseMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..b3e29ab 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -343,6 +343,11 @@ void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info)
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
+  // values (if any) belong to the old SparsityInfo
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
   // if we add SparsityInfo with alreade fixed number of entries we are ready to allocate values
   if (si->compressed == true) 
     compress();
-- 
2.43.0


From 88141bf3e3e60cd8c59c71f740151c97124f6f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 06/49] fix: reading a damaged or absent dump stops with an
 error instead of using garbage

---
 src/lib/math/SparseMatrix.cpp | 8 ++++++--
 src/lib/math/Vec.cpp          | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index b3e29ab..9992c19 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -209,10 +209,13 @@ void BaseSparseMatrix::readCoordinateTextFormat(std::istream& in) {
   uint32 _nrows, _ncols, _nvalues;
   // read header: nRows, nColumns, numberOfValues
   in >> _nrows >> _ncols >> _nvalues;
-  entries.reserve(_nvalues);
+  LOG_IF(in.fail(), FATAL) << "Can't read header of the matrix";
   for (uint32 i = 1; i <= _nvalues; i++) {
     SparseEntry entry;
     in >> entry.i >> entry.j >> entry.v;
+    LOG_IF(in.fail(), FATAL) << "Can't read entry " << i << " of " << _nvalues << " of the matrix";
+    LOG_IF(entry.i < 1 || entry.i > _nrows || entry.j < 1 || entry.j > _ncols, FATAL)
+        << "The position(" << entry.i << ", " << entry.j << ") is out of the matrix";
     entries.push_back(entry);
   }
   reinit(_nrows, _ncols, entries);
@@ -251,7 +254,8 @@ bool BaseSparseMatrix::compare(const BaseSparseMatrix& op2, double th) {
 
   // fourth round. compare values with thresholds
   for (uint32 i = 0; i < op1.nValues(); i++) {
-    if (fabs(op1.values[i] - op2.values[i]) > th) {
+    // NOTE: NaNs are never the same
+    if (!(fabs(op1.values[i] - op2.values[i]) <= th)) {
       return false;
     }
   }
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..647fe7f 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -243,7 +243,8 @@ bool dVec::compare(const dVec& op2, double th) {
 
   // second round. compare values
   for (uint32 i = 0; i < op1.size(); i++) {
-    if (fabs(op1.data[i] - op2.data[i]) > th) {
+    // NOTE: NaNs are never the same
+    if (!(fabs(op1.data[i] - op2.data[i]) <= th)) {
       return false;
     }
   }
@@ -263,9 +264,11 @@ void dVec::writeTextFormat(std::ostream& out) {
 void dVec::readTextFormat(std::istream& in) {
   uint32 _len;
   in >> _len;
+  LOG_IF(in.fail(), FATAL) << "Can't read length of the vector";
   reinit(_len);
   for (uint32 i = 0; i < _len; i++) {
     in >> data[i];
+    LOG_IF(in.fail(), FATAL) << "Can't read value " << i + 1 << " of " << _len << " of the vector";
   }
 }
 
-- 
2.43.0


From 715e08af7b4f42b795fbe7f067a0f8428162ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 07/49] fix: dumped matrices and vectors keep full precision

---
 src/lib/math/SparseMatrix.cpp | 8 +++++---
 src/lib/math/Vec.cpp          | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 9992c19..c2b4ed7 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -186,8 +186,10 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(values);
   assert(si->compressed);
   // we need to return back old preferences after usage
-  auto old_precision = out.precision(15);
-  auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
+  // NOTE: 17 significant digits are needed to restore double exactly
+  auto old_precision = out.precision(16);
+  auto old_flags = out.flags();
+  out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   // write header: nRows, nColumns, numberOfValues
   out << si->nRows << ' ' << si->nColumns << ' ' << si->numberOfValues << std::endl;
   uint32 total = 0;
@@ -200,7 +202,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 647fe7f..3f54ba7 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -254,10 +254,14 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // NOTE: 17 significant digits are needed to restore double exactly
+  auto old_precision = out.precision(17);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  // return back old setup
+  out.precision(old_precision);
 }
 
 
-- 
2.43.0


From 726974db4202ff3ec07ff6804e1f677f6c1ff301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 08/49] fix: failed allocation doesn't leave dangling pointers
 in dMat and sparse matrices

---
 src/lib/math/Mat.h            | 4 +++-
 src/lib/math/SparseMatrix.cpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 617c824..289664d 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -466,8 +466,10 @@ public:
 	}
 	void resize (uint16 dim_m, uint16 dim_n)
 	{
+		// NOTE: if allocation fails the old content stays valid
+		double* new_data = new double[dim_m*dim_n];
 		if (data) delete[] data;
-		data = new double[dim_m*dim_n];
+		data = new_data;
 		dmat_int.ptr = data;
 		dmat_int.M = dim_m;
 		dmat_int.N = dim_n;
diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index c2b4ed7..23a9046 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -339,6 +339,7 @@ void BaseSparseMatrix::compress() {
   }
   
   if (values) delete[] values;
+  values = nullptr;
   values = new double[si->numberOfValues];
   zero();
 }
-- 
2.43.0


From 80ce55a4171f70372e55a960115f8b784a85fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:10 +0000
Subject: [PATCH 09/49] fix: FEStorage::deleteMpcs forgets deleted equations
 (double free)

---
 src/lib/FEStorage.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..0c8970c 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,11 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
+  // equations of MPC collections have been deleted too
+  for (size_t i = 0; i < mpcCollections.size(); i++) {
+    mpcCollections[i]->collection.clear();
+  }
 }
 
 
-- 
2.43.0


From 2781521d4841b546a32bdf146bc3fdaf1865c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 10/49] fix: FEStorage::initDofs starts with no constrained
 DoFs when called again

---
 src/lib/FEStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 0c8970c..346a139 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -348,6 +348,8 @@ void FEStorage::initDofs() {
   
   nodeDofs.initDofTable(nNodes());
   elementDofs.initDofTable(nElements());
+  // just created DoFs are not constrained
+  _nConstrainedDofs = 0;
 
 	for (uint32 el = 0; el < nElements(); el++) {
     elements[el]->pre();
-- 
2.43.0


From 95d223e0ac03b301854fa4c5c26ef542bc52f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 11/49] fix: FEStorage::initSolutionData frees matrices of a
 previous solution

---
 src/lib/FEStorage.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 346a139..bb1d107 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -477,6 +477,14 @@ void FEStorage::initSolutionData () {
   //  | Rc | =-| Fc | + | Kcc | * | Uc | + |KcsMPCc| * |    |
   //  |    |   |    |   |     |   |    |   |       |   | Ul |
 
+  // drop matrices of a previous solution
+  delete matK;
+  matK = nullptr;
+  delete matC;
+  matC = nullptr;
+  delete matM;
+  matM = nullptr;
+
   matK = new BlockSparseSymMatrix<2>({nConstrainedDofs(), nUnknownDofs() + nMpc()});
 
   if (transient) {
-- 
2.43.0


From 5e7b49d994d87fd0090d0d50f4c6586d838e40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 12/49] fix: equations of MPC collections are not registered
 twice when the model is solved again

---
 src/lib/FEStorage.cpp | 7 +++++++
 src/lib/Mpc.cpp       | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index bb1d107..3029689 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -355,6 +355,13 @@ void FEStorage::initDofs() {
     elements[el]->pre();
   }
 
+  // equations of MPC collections, registered by a previous call, are going to be registered again
+  std::set<Mpc*> registered;
+  for (size_t i = 0; i < mpcCollections.size(); i++) {
+    registered.insert(mpcCollections[i]->collection.begin(), mpcCollections[i]->collection.end());
+  }
+  mpcs.remove_if([&registered](Mpc* mpc) { return registered.count(mpc) > 0; });
+
   for (size_t i = 0; i < mpcCollections.size(); i++) {
     mpcCollections[i]->pre();
     mpcCollections[i]->registerMpcsInStorage();
diff --git a/src/lib/Mpc.cpp b/src/lib/Mpc.cpp
index bbd54f0..fcd7525 100644
--- a/src/lib/Mpc.cpp
+++ b/src/lib/Mpc.cpp
@@ -50,6 +50,11 @@ RigidBodyMpc::~RigidBodyMpc () {
 }
 
 void RigidBodyMpc::pre () {
+  // equations of a previous solution are not in FEStorage anymore
+  for (size_t i = 0; i < collection.size(); i++) {
+    delete collection[i];
+  }
+  collection.clear();
   // create Mpc for all nodes and all dofs..
   collection.assign(slaveNodes.size() * dofs.size(), NULL);
   for (size_t i = 0; i < slaveNodes.size(); i++) {
-- 
2.43.0


From fe0fc830483a86e13dd5776c25ba202ff4105612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 13/49] fix: classes deleted through a base pointer have
 virtual destructors

---
 src/lib/Mpc.h                | 1 +
 src/lib/PostProcessor.h      | 2 +-
 src/lib/materials/material.h | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..e8fba36 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() { };
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 3ad5b30..0add1cc 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -15,7 +15,7 @@ class FESolver;
 class PostProcessor {
 public:
 	PostProcessor(FEStorage *st);
-	~PostProcessor() { };
+	virtual ~PostProcessor() { };
 	virtual void pre ()=0;
 	virtual void process (uint16 curLoadstep)=0;
 	virtual void post (uint16 curLoadstep)=0;
diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index c8b0d00..058fe02 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -17,7 +17,7 @@ public:
 	Material () : MC(NULL), numC(0), code(0) { 
 	}
 	Material (uint16 num_c);
-	~Material()   // TODO: discover the virtual destructor
+	virtual ~Material()
 	{
 		if (MC) delete[] MC; 
 		MC = NULL;
-- 
2.43.0


From 7a47758aad7844fdbeb39884c1a51611d9fe9884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 14/49] fix: Element::assembleM adds to the inertia matrix, not
 to the damping one

---
 src/lib/elements/element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..0bb3ceb 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -343,7 +343,7 @@ void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofTy
           if ((i==j) && (dj<di)) {
             continue;
           } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
             Me_p++;
           }
         }
-- 
2.43.0


From 40e7da631e9493d79d9b06c92e2ea71882e0b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 15/49] fix: transient solver takes prescribed DoF values into
 account

---
 src/lib/FESolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 18bfe2a..54d889c 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -613,6 +613,8 @@ void LinearTransientFESolver::solve() {
   while (curTime <= time1) {
     for (;;) {
       rhs = vecFsl + vecRsl;
+      // need to take into account elimination of constrained DoFs:
+      matBTVprod(*(matK->block(1,2)), vecUc, -1.0, rhs);
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
       matBVprod(*(matC->block(2)), a1*vecUsl + a4*vecDUsl + a5*vecDDUsl, 1.0, rhs);
 
-- 
2.43.0


From 9718efc0aef039efd38ef21d944a5ebfb822d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 16/49] fix: transient solver mixed up a6 and a7 in the
 velocity update

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 54d889c..64ff19c 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -628,7 +628,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From 0fa00d7d5f7622ebfcf03036b9f49266217c8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 17/49] fix: transient solver takes exactly the requested
 number of steps

---
 src/lib/FESolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 64ff19c..b70cd69 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -552,7 +552,7 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  uint32 curTimestep = 1;
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
@@ -610,7 +610,8 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  // NOTE: steps are counted because curTime accumulates rounding errors
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       // need to take into account elimination of constrained DoFs:
-- 
2.43.0


From 781a1477f73bd989c2766643917581c8aff52747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 18/49] fix: ReactionProcessor keeps reactions in memory when
 its file can't be written

---
 src/lib/ReactionProcessor.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..c76faf7 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -18,15 +18,14 @@ ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : Pos
 
 void ReactionProcessor::pre() {
 	if (nodes.size() == 0) {
-    LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
-    return;
+    LOG(WARNING) << "No nodes, reactions will be zero. Processor name = " << name;
   }
 
   // define Dofs by the following rule:
   // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
   // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
   // if different nodes has different constrained dofs - error
-  if (dofs.size() == 0) {
+  if (dofs.size() == 0 && nodes.size() > 0) {
     for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
       Dof::dofType t = static_cast<Dof::dofType> (d);
       if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
@@ -66,10 +65,8 @@ void ReactionProcessor::pre() {
   }
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::trunc);
-    if (!file) {
-      LOG(WARNING) << "Can't create a file with name " << filename;
-      return;
-    }
+    // if the file can't be created we still need to keep reactions in memory
+    LOG_IF(!file, WARNING) << "Can't create a file with name " << filename;
     for (uint16 d = 0; d < dofs.size(); d++) {
       file << "\t" << Dof::dofTypeLabels[dofs[d]];
     }
@@ -100,10 +97,8 @@ void ReactionProcessor::process (uint16 curLoadstep) {
 
   if (filename.length() > 0) {
     std::ofstream file(filename.c_str(),std::ios::app);
-    if (!file) {
-      LOG(WARNING) << "Can't open a file with name " << filename;
-      return;
-    }
+    // if the file can't be opened we still need to keep reactions in memory
+    LOG_IF(!file, WARNING) << "Can't open a file with name " << filename;
     file << curLoadstep;
     for (uint16 d = 0; d < dofs.size(); d++) {
       file << "\t" << reactions[d];
-- 
2.43.0


From a7a93766d638ac42e43c6663106b61f6e22c43bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 19/49] fix: ReactionProcessor reports nodes with different
 constrained DoFs instead of crashing

---
 src/lib/ReactionProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index c76faf7..315b29c 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -40,7 +40,7 @@ void ReactionProcessor::pre() {
     uint32 n = 0;
     while (sameDofsConstrained && n < nodes.size()) {
       for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
           LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
           sameDofsConstrained = false;
           break;
-- 
2.43.0


From cdf7a931b27a0e6ffa94b70e02cdedd12f07085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 20/49] fix: TETRA0 and TRIANGLE4 answer with an uninitialised
 volume before the first buildK

---
 src/lib/elements/TETRA0.h    | 2 +-
 src/lib/elements/TRIANGLE4.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/elements/TETRA0.h b/src/lib/elements/TETRA0.h
index c37124c..a3b4812 100644
--- a/src/lib/elements/TETRA0.h
+++ b/src/lib/elements/TETRA0.h
@@ -55,7 +55,7 @@ public:
   //strains[M_XX], strains[M_YY], strains[M_ZZ], strains[M_XY], strains[M_YZ], strains[M_XZ]
   math::Vec<6> strains;
 
-  double vol;
+  double vol = 0.0;
 
   //postproc procedures
   bool getScalar(double* scalar, scalarQuery code, uint16 gp, const double scale);
diff --git a/src/lib/elements/TRIANGLE4.h b/src/lib/elements/TRIANGLE4.h
index e275941..f413f13 100644
--- a/src/lib/elements/TRIANGLE4.h
+++ b/src/lib/elements/TRIANGLE4.h
@@ -58,7 +58,7 @@ public:
 
   PlaneState state;
 private:
-  double area;
+  double area = 0.0;
 };
 
 } //namespace nla3d
-- 
2.43.0


From 49a74775aef251bc658b672d408a0121d095e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 21/49] fix: TRIANGLE4::update adds strains and stresses to
 those of the previous solution

---
 src/lib/elements/TRIANGLE4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..efedb92 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -68,8 +68,10 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
   // restore strains
+  strains.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
+  stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
 }
 
-- 
2.43.0


From d333610a45abf47910e6331ddf4ba939e648e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 22/49] fix: VtkProcessor writes tensors accumulated over
 uninitialised memory

---
 src/lib/VtkProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..0cddd77 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -265,7 +265,7 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
   for(auto query : cellTensorQueries) {
     dataTensor.assign(en, MatSym<3>());
     for (uint32 i = 1; i <= storage->nElements(); i++) {
-      // dataTensor[i-1].zero();
+      dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
     }
     writeTensor(file, query2label(query), dataTensor); 
-- 
2.43.0


From c0d6ac252db272b225e3542a0f6ceacc42bfed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 23/49] fix: INTER3::getTensor returns nothing for unknown
 queries

---
 src/lib/elements/INTER3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..bdef06c 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -232,6 +232,7 @@ bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16
     tensor->comp(0,2) += 0.;
     return true;
   }
+  return false;
 }
 
 
-- 
2.43.0


From 67b0f5fafac0acb0214612073e6258ce6fdb3735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:11 +0000
Subject: [PATCH 24/49] fix: PLANE41::getVector writes past the vector it was
 given

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From aacc6a5ce51a35b07f0edc6b60394bf9042cf285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:47 +0000
Subject: [PATCH 25/49] fix: TETRA0 takes the results of the previous solution
 for initial strains when solved again

---
 src/lib/elements/TETRA0.cpp | 19 +++++++++++++------
 src/lib/elements/TETRA0.h   |  6 ++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..5be3850 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -43,7 +43,12 @@ void ElementTETRA0::buildK() {
 
   math::matBTDBprod(matB, matC, vol, matKe);
 
-  if ((alpha != 0. && T != 0.) || strains.qlength() != 0. || stress.qlength() != 0.){
+  if (!hasResults) {
+    initStress = stress;
+    initStrains = strains;
+  }
+
+  if ((alpha != 0. && T != 0.) || initStrains.qlength() != 0. || initStress.qlength() != 0.){
     //node forces calculations
     math::Vec<12> Fe;
     Fe.zero();
@@ -52,23 +57,23 @@ void ElementTETRA0::buildK() {
     matBTC = matB.transpose()*matC.toMat();
 
     //mechanical initial stress
-    if (stress.qlength() != 0.){
-      strains.zero();
+    math::Vec<6> loadStrains = initStrains;
+    if (initStress.qlength() != 0.){
       math::Mat<6,6> matP;
       matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
+      loadStrains = matP*initStress;
     }
     
     //termal initial strains
     if (alpha != 0. && T != 0.){
       //temp node forces
       math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
+      loadStrains = loadStrains + tStrains;
     }
 
 
     //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, loadStrains, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
@@ -105,6 +110,8 @@ void ElementTETRA0::update () {
   
   stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
+
+  hasResults = true;
 }
 
 void ElementTETRA0::makeB(math::Mat<6,12> &B)
diff --git a/src/lib/elements/TETRA0.h b/src/lib/elements/TETRA0.h
index a3b4812..e2ed388 100644
--- a/src/lib/elements/TETRA0.h
+++ b/src/lib/elements/TETRA0.h
@@ -55,6 +55,12 @@ public:
   //strains[M_XX], strains[M_YY], strains[M_ZZ], strains[M_XY], strains[M_YZ], strains[M_XZ]
   math::Vec<6> strains;
 
+  // initial stresses and strains: the values given in `stress` and `strains` before the first solution
+  // (update() overwrites them with results)
+  math::Vec<6> initStress;
+  math::Vec<6> initStrains;
+  bool hasResults = false;
+
   double vol = 0.0;
 
   //postproc procedures
-- 
2.43.0


From 6c8c039cbdd538dca6a4ac47bdcd315e92ab0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:13 +0000
Subject: [PATCH 26/49] fix: TRIANGLE4 plane stress matrix multiplies by
 (1-my^2) instead of dividing

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index efedb92..ffc6ecc 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -113,7 +113,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From 5e99d19605d5b1821da24c80b8afbe191fd257d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 27/49] fix: readCdbFile reads wrong number of CE terms per row

---
 src/lib/FEReaders.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..9d7783f 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -561,7 +561,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
         getLine(file, line);
         t.tokenize(line);
         uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        int n_row = std::min(n_terms, 2);
+        for (int i = 0; i < n_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From 267a056d2ce8c0c9d71d84301eae1f767bec0a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 28/49] fix: readCdbFile never ends on components with more
 than 65535 ranges

---
 src/lib/FEReaders.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 9d7783f..0e100a7 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -607,8 +607,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
           widths.push_back(int_field);
         }
 
-        uint16 in_row = 0;
-        uint16 all = 0;
+        uint32 in_row = 0;
+        uint32 all = 0;
 
         // read all ranges and calculate overall number of entities in component list
         vector<int32> rangesVec;
-- 
2.43.0


From 8c4a5b8a5c2923e966abcac150cf96b75db1f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 29/49] fix: compressNumbers left permuted node numbers as they
 are and crashed without nodes

---
 src/lib/FEReaders.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 0e100a7..76067f6 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -33,8 +33,15 @@ void MeshData::clear() {
 
 
 void MeshData::compressNumbers() {
-  // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  // numbers should start from 1 and follow the order of nodes
+  bool isCompressed = true;
+  for (uint32 i = 0; i < nodesNumbers.size(); i++) {
+    if (nodesNumbers[i] != i + 1) {
+      isCompressed = false;
+      break;
+    }
+  }
+  if (isCompressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From 2dafa3536c8128135518c96d46e4c10657ab1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 30/49] fix: readCdbFile reads out of bounds on short lines

---
 src/lib/FEReaders.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 76067f6..01a57cd 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -145,6 +145,7 @@ string& stoupper(string& str) {
 
 char sfirstNotBlank(const string& str) {
   size_t st = str.find_first_not_of(space_chars, 0);
+  if (st == string::npos) return '\0';
   return str[st];
 }
 
@@ -251,14 +252,23 @@ int Tokenizer::tokenize(const string& line) {
 
 
 int Tokenizer::tokenInt(size_t ind) {
-  return std::stoi(tokens[ind]);
+  return std::stoi(getTokenString(ind));
 }
 
 
 double Tokenizer::tokenDouble(size_t ind) {
-  return std::stod(tokens[ind]);
+  return std::stod(getTokenString(ind));
 }
 
+
+std::string& Tokenizer::getTokenString(size_t ind) {
+  if (ind >= tokens.size()) {
+    throw std::invalid_argument("Tokenizer: no token " + toStr(ind));
+  }
+  return tokens[ind];
+}
+
+
 bool readNeuFile(std::string filename, MeshData& md)
 {
   uint32 n_number, en;
@@ -412,6 +422,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         if (ch == '-' || ch == 'N') break;
 
         auto v = ssplit(line, widths, false);
+        LOG_IF(v.size() == 0, FATAL) << "Empty line in the nodes table";
         // column no. 1 - node number
         uint32 number = std::stoi(v[0]);
         // Vec is initialized with zeros by default
@@ -456,7 +467,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       The final line of the block will be a -1 in field 1. */
 
       //TODO: It seems that getline keeps windows line ending
-      bool isSolid = iequals(t.tokens[2], "SOLID");
+      bool isSolid = t.tokens.size() > 2 && iequals(t.tokens[2], "SOLID");
       // parse format string
       getLine(file, line);
       stolower(strim(line));
@@ -483,6 +494,9 @@ bool readCdbFile(std::string filename, MeshData& md) {
         if (ch == '-' || ch == 'N') break;
 
         auto v = ssplit(line, widths, false);
+        if (v.size() < (isSolid ? 11 : 5)) {
+          LOG(FATAL) << "Not enought fields to read element";
+        }
 
         // initialize values that we read from element table
         uint32 MAT = 0;
@@ -571,7 +585,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
         int n_row = std::min(n_terms, 2);
         for (int i = 0; i < n_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
-          Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
+          Dof::dofType dof = Dof::label2dofType(t.getTokenString(3 + 3 * i + 1));
           double coef = t.tokenDouble(3 + 3 * i + 2);
           mpc->eq.push_back(MpcTerm(node,dof,coef));
           n_terms--;
@@ -586,12 +600,12 @@ bool readCdbFile(std::string filename, MeshData& md) {
       //      5037     -5341      6330     -6352      6355      6357      6433     -6456
       //      6459      6470     -6473      6537     -6556      6566     -6569      6633
       //     -6652
-      if (t.tokens[1][0] != '_') {
+      if (t.getTokenString(1)[0] != '_') {
         // we work only with component names started not with underscore '_'
         FEComponent comp;
         comp.name = t.tokens[1];
         // NODE or ELEMENT component?
-        comp.type = FEComponent::typeFromString(stoupper(t.tokens[2]));
+        comp.type = FEComponent::typeFromString(stoupper(t.getTokenString(2)));
 
         size_t numRanges = t.tokenInt(3);
         getLine(file, line);
@@ -629,6 +643,9 @@ bool readCdbFile(std::string filename, MeshData& md) {
               v = ssplit(line, widths, false);
               in_row = 0;
            }
+           if (in_row >= v.size()) {
+             LOG(FATAL) << "Not enought fields to read component " << comp.name;
+           }
            rangesVec.push_back(std::stoi(v[in_row]));
            if (rangesVec[all] > 0) {
               numEntity++;
@@ -669,7 +686,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       try {
         type = t.tokenInt(1);
       } catch (const std::invalid_argument& ia) {
-        type = static_cast<uint32>(apdlParameters[t.tokens[1]]);
+        type = t.tokens.size() > 1 ? static_cast<uint32>(apdlParameters[t.tokens[1]]) : 0;
       }
     } // ETYPE
     else if (iequals(t.tokens[0], "TYPE")) {
@@ -721,7 +738,7 @@ bool readCdbFile(std::string filename, MeshData& md) {
       // try to read parameter's name and it's value as double
       // if fail - skip this expression
       try {
-        parName = t.tokens[1];
+        parName = t.getTokenString(1);
         value = t.tokenDouble(2);
         isNumeric = true;
       } catch (const std::invalid_argument& ia) {
-- 
2.43.0


From 98151df2f5e445297ab9280d81e9640a123c9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 31/49] fix: readCdbFile accepts a file cut inside of nodes or
 elements table

---
 src/lib/FEReaders.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 01a57cd..ef9af13 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -434,6 +434,10 @@ bool readCdbFile(std::string filename, MeshData& md) {
         md.nodesNumbers.push_back(number);
         md.nodesPos.push_back(pos);
       }
+      if (file.eof()) {
+        LOG(WARNING) << "Unexpected end of file in NBLOCK, file " << filename;
+        return false;
+      }
     }//NBLOCK
     else if (iequals(t.tokens[0], "EBLOCK")) {  
       // Example of record:
@@ -549,6 +553,10 @@ bool readCdbFile(std::string filename, MeshData& md) {
         md.cellIntData["CS"].push_back(CS);
         md.cellIntData["SHAPE"].push_back(SHAPE);
       } // end of element table
+      if (file.eof()) {
+        LOG(WARNING) << "Unexpected end of file in EBLOCK, file " << filename;
+        return false;
+      }
     }//EBLOCK
     else if (iequals(t.tokens[0], "D")) {
       // Fixed dof record
-- 
2.43.0


From 5261b34e81ebf900429f601f3f319539ec349434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 32/49] fix: readNeuFile reports success on cut and damaged
 files

---
 src/lib/FEReaders.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index ef9af13..d96cd26 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -281,7 +281,10 @@ bool readNeuFile(std::string filename, MeshData& md)
    
   // read nodes section 
   int nodesCount;
-  file >> nodesCount;    
+  if (!(file >> nodesCount)) {
+    LOG(WARNING) << "Can't read number of nodes in neu file " << filename;
+    return false;
+  }
   md.nodesPos.resize(nodesCount);
   md.nodesNumbers.reserve(nodesCount);
   
@@ -289,12 +292,19 @@ bool readNeuFile(std::string filename, MeshData& md)
     for (int col(0); col < 3; ++col) {
       file >> md.nodesPos[node_num][col];
     }
+    if (!file) {
+      LOG(WARNING) << "Can't read nodes in neu file " << filename;
+      return false;
+    }
     md.nodesNumbers.push_back(node_num+1);
   }
   
   // read volumes section 
   int volumesCount;
-  file >> volumesCount; 
+  if (!(file >> volumesCount)) {
+    LOG(WARNING) << "Can't read number of volumes in neu file " << filename;
+    return false;
+  }
   md.cellNumbers.reserve(volumesCount);
   vector<uint32> enodes(4, 0);
   for (uint32 volume_num(0); volume_num < volumesCount; ++volume_num) {
@@ -305,6 +315,10 @@ bool readNeuFile(std::string filename, MeshData& md)
     for (int node_num(0); node_num < 4; ++node_num) {    
       file >> enodes[node_num];
     }
+    if (!file) {
+      LOG(WARNING) << "Can't read volumes in neu file " << filename;
+      return false;
+    }
 
     md.cellNodes.push_back(enodes);
     md.cellNumbers.push_back(volume_num + 1);
@@ -312,7 +326,10 @@ bool readNeuFile(std::string filename, MeshData& md)
   
   // read surfaces section
   int surfaceCount;
-  file >> surfaceCount;  
+  if (!(file >> surfaceCount) || surfaceCount < 0) {
+    LOG(WARNING) << "Can't read number of surfaces in neu file " << filename;
+    return false;
+  }
   for (int surfNum(0); surfNum < surfaceCount; ++surfNum) {
     string compname;
     file >> compname;
@@ -328,6 +345,16 @@ bool readNeuFile(std::string filename, MeshData& md)
       file >> node;
       it->second.list.push_back(node);
     }
+    if (!file) {
+      LOG(WARNING) << "Can't read surfaces in neu file " << filename;
+      return false;
+    }
+  }
+  // the last number should end with the file or with a white space
+  int next = file.peek();
+  if (file.bad() || (next != EOF && !isspace(next))) {
+    LOG(WARNING) << "Unexpected data in neu file " << filename;
+    return false;
   }
   file.close();
   return true;
-- 
2.43.0


From d6c168198acfc6ee3f6cc724d7a5c348ba49e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:59 +0000
Subject: [PATCH 33/49] fix: readNeuFile takes the tail of a damaged number for
 a surface name

---
 src/lib/FEReaders.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index d96cd26..b4b16a4 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -326,7 +326,12 @@ bool readNeuFile(std::string filename, MeshData& md)
   
   // read surfaces section
   int surfaceCount;
-  if (!(file >> surfaceCount) || surfaceCount < 0) {
+  // a number should end with the file or with a white space
+  auto numberEnds = [&file] {
+    int next = file.peek();
+    return next == EOF || isspace(next);
+  };
+  if (!(file >> surfaceCount) || surfaceCount < 0 || !numberEnds()) {
     LOG(WARNING) << "Can't read number of surfaces in neu file " << filename;
     return false;
   }
@@ -345,15 +350,13 @@ bool readNeuFile(std::string filename, MeshData& md)
       file >> node;
       it->second.list.push_back(node);
     }
-    if (!file) {
+    if (!file || !numberEnds()) {
       LOG(WARNING) << "Can't read surfaces in neu file " << filename;
       return false;
     }
   }
-  // the last number should end with the file or with a white space
-  int next = file.peek();
-  if (file.bad() || (next != EOF && !isspace(next))) {
-    LOG(WARNING) << "Unexpected data in neu file " << filename;
+  if (file.bad()) {
+    LOG(WARNING) << "Can't read neu file " << filename;
     return false;
   }
   file.close();
-- 
2.43.0


From 27f702b3840e4276275f492d7dd100527dc8984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 34/49] fix: static solvers assemble C and M on a storage used
 for transient analysis before

---
 src/lib/FESolver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index b70cd69..1e62216 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -353,6 +353,9 @@ void LinearFESolver::solve () {
   eqSolver->setSymmetric(true);
   eqSolver->setPositive(false);
 
+  // the storage might be used for transient analysis before
+  storage->setTransient(false);
+
   // This is right procedures to init solution infrmation in FEStorage:
   // 1. Register all DoFs that will be used in solution
   storage->initDofs();
@@ -423,6 +426,9 @@ void NonlinearFESolver::solve() {
   eqSolver->setSymmetric(true);
   eqSolver->setPositive(false);
 
+  // the storage might be used for transient analysis before
+  storage->setTransient(false);
+
   storage->initDofs();
   setConstrainedDofs();
   storage->assignEquationNumbers();
-- 
2.43.0


From f4e0f343ddddd59c4d5a1e66d8709fb66080ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 35/49] fix: elements answer results of previous solution at
 start of a new one

---
 src/lib/elements/INTER0.cpp    | 3 +++
 src/lib/elements/INTER3.cpp    | 4 ++++
 src/lib/elements/TETRA0.cpp    | 4 ++++
 src/lib/elements/TETRA1.cpp    | 3 +++
 src/lib/elements/TRIANGLE4.cpp | 4 ++++
 5 files changed, 18 insertions(+)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..847b4e4 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -7,6 +7,9 @@ ElementINTER0::ElementINTER0 () {
 }
 
 void ElementINTER0::pre () {
+  // forget results of previous solution
+  strains.zero();
+
   for (uint16 i = 0; i < getNNodes(); i++) {
     storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::UY, Dof::UZ});
   }
diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index bdef06c..5f3f5cf 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -7,6 +7,10 @@ ElementINTER3::ElementINTER3 () {
 }
 
 void ElementINTER3::pre () {
+  // forget results of previous solution
+  strains.zero();
+  stress.zero();
+
   for (uint16 i = 0; i < getNNodes(); i++) {
     storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::UY, Dof::UZ});
   }
diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index 5be3850..593e77b 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -9,6 +9,10 @@ ElementTETRA0::ElementTETRA0 () {
 }
 
 void ElementTETRA0::pre () {
+  // forget results of previous solution
+  strains.zero();
+  stress.zero();
+
   for (uint16 i = 0; i < getNNodes(); i++) {
     storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::UY, Dof::UZ});
   }
diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..4c66e72 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -7,6 +7,9 @@ ElementTETRA1::ElementTETRA1 () {
 }
 
 void ElementTETRA1::pre () {
+  // forget results of previous solution
+  flux.zero();
+
   for (uint16 i = 0; i < getNNodes(); i++) {
     storage->addNodeDof(getNodeNumber(i), {Dof::TEMP});
   }
diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index ffc6ecc..94f27f5 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -12,6 +12,10 @@ ElementTRIANGLE4::ElementTRIANGLE4 () {
 }
 
 void ElementTRIANGLE4::pre () {
+  // forget results of previous solution
+  strains.zero();
+  stress.zero();
+
   for (uint16 i = 0; i < getNNodes(); i++) {
     storage->addNodeDof(getNodeNumber(i), {Dof::UX, Dof::UY});
   }
-- 
2.43.0


From d936f463db7195041755f36201bdbfda66492e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:38 +0000
Subject: [PATCH 36/49] fix: isoparametric elements use geometry of the first
 solution after nodes were moved

---
 src/lib/elements/PLANE41.cpp | 5 ++---
 src/lib/elements/QUADTH.cpp  | 5 ++---
 src/lib/elements/SOLID81.cpp | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..aaeb0ea 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -13,9 +13,8 @@ const uint16 ElementPLANE41::num_components = 3;
 
 //------------------ElementPLANE41--------------------
 void ElementPLANE41::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // geometry might be changed after previous solution
+  makeJacob();
 
   S.assign(nOfIntPoints(), Vec<3>(0.0f, 0.0f, 0.0f));
   C.assign(nOfIntPoints(), Vec<3>(1.0f, 1.0f, 0.0f));
diff --git a/src/lib/elements/QUADTH.cpp b/src/lib/elements/QUADTH.cpp
index a7a8b00..9e3907d 100644
--- a/src/lib/elements/QUADTH.cpp
+++ b/src/lib/elements/QUADTH.cpp
@@ -9,9 +9,8 @@ using namespace math;
 
 
 void ElementQUADTH::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // geometry might be changed after previous solution
+  makeJacob();
 
   // register element equations
   for (uint16 i = 0; i < getNNodes(); i++) {
diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..5cb5539 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -10,9 +10,8 @@ using namespace solidmech;
 
 
 void ElementSOLID81::pre() {
-  if (det.size()==0) {
-    makeJacob();
-  }
+  // geometry might be changed after previous solution
+  makeJacob();
 
   S.assign(nOfIntPoints(), Vec<6>(0.0, 0.0, 0.0, 0.0, 0.0, 0.0));
   C.assign(nOfIntPoints(), Vec<6>(1.0, 0.0, 0.0, 1.0, 0.0, 1.0));
-- 
2.43.0


From d305c904e7a95a6540c0e9d7cb1e4435b42dbfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:10 +0000
Subject: [PATCH 37/49] fix: deleteMpcCollections leaves equations of deleted
 collections in the storage

---
 src/lib/FEStorage.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 3029689..1b922a8 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -283,6 +283,15 @@ void FEStorage::deleteMpcs() {
 
 
 void FEStorage::deleteMpcCollections() {
+  // equations registered by the collections leave together with them
+  std::set<Mpc*> registered;
+  for (size_t i = 0; i < mpcCollections.size(); i++) {
+    registered.insert(mpcCollections[i]->collection.begin(), mpcCollections[i]->collection.end());
+  }
+  mpcs.remove_if([&registered](Mpc* mpc) { return registered.count(mpc) != 0; });
+  for (auto mpc : registered) {
+    delete mpc;
+  }
 
   for (size_t i = 0; i < mpcCollections.size(); i++) {
     delete mpcCollections[i];
-- 
2.43.0


From 2092cf24e461b8333c01363f786cab5967f3508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:19 +0000
Subject: [PATCH 38/49] fix: nla3d reads past the end of material constants
 when too few are given

---
 src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 8c4d1f2..473ed8d 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -171,9 +171,11 @@ int main (int argc, char* argv[]) {
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-  if (mat->getNumC() != options::materialConstants.size())
+  if (mat->getNumC() != options::materialConstants.size()) {
     LOG(ERROR) << "Material " << options::materialName << " needs exactly " << mat->getNumC()
       << " constants (" << options::materialConstants.size() << " were provided)";
+    exit(1);
+  }
   for (uint16 i = 0; i < mat->getNumC(); i++) {
     mat->Ci(i) = options::materialConstants[i];
   }
-- 
2.43.0


From 9859f9a54a8bd05effe73bf717cac8bdd3776ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 39/49] fix: nla3d loops forever on damaged reference curves
 and drops equal neighbour values

---
 src/main.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 473ed8d..4cfd24d 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -36,6 +36,13 @@ namespace options {
   std::vector<Dof::dofType> rigidBodyDofs;
 };
 
+// the whole string should be a finite number
+bool str2double (const std::string& str, double& value) {
+  char* end;
+  value = strtod(str.c_str(), &end);
+  return end != str.c_str() && *end == '\0' && std::isfinite(value);
+}
+
 bool parse_args (int argc, char* argv[]) {
   if (argc < 2) {
     return false;
@@ -344,20 +351,24 @@ double compareCurves (const std::vector<double>& refCurve, const std::vector<dou
 std::vector<double> readRefCurveData (std::string fileRefCurve) {
   std::ifstream file(fileRefCurve.c_str());
   std::string dummy;
-  double tmp;
-  double pre_tmp = -1.0;
+  std::string force;
   std::vector<double> res;
   file >> dummy >> dummy >> dummy;
   if (dummy.compare("force") != 0) {
     LOG(ERROR) << "readRefCurveData: Expecting third column to a force column";
     exit(1);
   }
-  while (!file.eof()) {
-    file >> dummy >> dummy >> tmp;
-    if (tmp != pre_tmp) {
-      res.push_back(tmp);
-      pre_tmp = tmp;
+  while (file >> dummy) {
+    double tmp;
+    if (!(file >> dummy >> force) || !str2double(force, tmp)) {
+      LOG(ERROR) << "readRefCurveData: Expecting rows with three columns and a number in the last one";
+      exit(1);
     }
+    res.push_back(tmp);
+  }
+  if (!file.eof() || res.size() == 0) {
+    LOG(ERROR) << "readRefCurveData: Can't read a curve from " << fileRefCurve;
+    exit(1);
   }
   file.close();
   return res;
-- 
2.43.0


From 6d7324f320559d0356b8531c939fbe16f6c5beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:40 +0000
Subject: [PATCH 40/49] fix: nla3d accepts NaN deviation from the reference
 curve

---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 4cfd24d..5c03ecf 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -320,7 +320,8 @@ int main (int argc, char* argv[]) {
       double _error = compareCurves (refCurve, curCurve);
       LOG(INFO) << "Error between reference loading curve and current is " << _error;
       if (options::curveCompareThreshold > 0.0) {
-        if (_error > options::curveCompareThreshold) {
+        // NaN isn't less than the threshold
+        if (!(_error <= options::curveCompareThreshold)) {
           LOG(ERROR) << "To big error! (upper bound is " << options::curveCompareThreshold << ")";
           exit(1);
         } else {
-- 
2.43.0


From f4d48a7dcf759ada6bc08b5e23d02c6a9834ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 41/49] fix: nla3d takes spoiled numbers in options for zeros
 (a spoiled threshold switches comparison off)

---
 src/main.cpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 5c03ecf..13082a1 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -43,6 +43,27 @@ bool str2double (const std::string& str, double& value) {
   return end != str.c_str() && *end == '\0' && std::isfinite(value);
 }
 
+// obtain number from a value of command line option. Spoiled numbers stop the program.
+double getNumber (const char* str, const std::string& option) {
+  double value;
+  if (str == 0 || !str2double(str, value)) {
+    LOG(ERROR) << "Option " << option << " needs a number (got '" << (str ? str : "") << "')";
+    std::exit(1);
+  }
+  return value;
+}
+
+// obtain quantity (1, 2, ..) from a value of command line option
+uint32 getQuantity (const char* str, const std::string& option, double maximum) {
+  double value = getNumber(str, option);
+  if (value < 1.0 || value > maximum || value != floor(value)) {
+    LOG(ERROR) << "Option " << option << " needs a whole number between 1 and " << maximum
+        << " (got '" << str << "')";
+    std::exit(1);
+  }
+  return static_cast<uint32>(value);
+}
+
 bool parse_args (int argc, char* argv[]) {
   if (argc < 2) {
     return false;
@@ -56,12 +77,12 @@ bool parse_args (int argc, char* argv[]) {
 
   char* tmp = getCmdOption(argv, argv + argc, "-iterations");
   if (tmp) {
-    options::numberOfIterations = atoi(tmp);
+    options::numberOfIterations = getQuantity(tmp, "-iterations", 65535);
   }
 
   tmp = getCmdOption(argv, argv + argc, "-loadsteps");
   if (tmp) {
-    options::numberOfLoadsteps = atoi(tmp);
+    options::numberOfLoadsteps = getQuantity(tmp, "-loadsteps", 65534);
   }
 
   tmp = getCmdOption(argv, argv + argc, "-element");
@@ -76,7 +97,7 @@ bool parse_args (int argc, char* argv[]) {
   } else {
     options::materialName = vtmp[0];
     for (uint16 i = 1; i < vtmp.size(); i++) {
-      options::materialConstants.push_back(atof(vtmp[i]));
+      options::materialConstants.push_back(getNumber(vtmp[i], "-material"));
     }
   }
 
@@ -86,8 +107,8 @@ bool parse_args (int argc, char* argv[]) {
   }
 
   tmp = getCmdOption(argv, argv + argc, "-threshold");
-  if (tmp) {
-    options::curveCompareThreshold = atof(tmp);
+  if (tmp || cmdOptionExists(argv, argv + argc, "-threshold")) {
+    options::curveCompareThreshold = getNumber(tmp, "-threshold");
   }
 
   tmp = getCmdOption(argv, argv + argc, "-reaction");
@@ -113,7 +134,7 @@ bool parse_args (int argc, char* argv[]) {
       LOG(ERROR) << "Please point master node, componen with slave node and degrees of freedom";
       std::exit(1);
     } else {
-      options::rigidBodyMasterNode = atoi(vtmp[0]);
+      options::rigidBodyMasterNode = getQuantity(vtmp[0], "-rigidbody", 4294967295.0);
       options::rigidBodySlavesComponent = vtmp[1];
       if (vtmp.size() == 2) {
         options::rigidBodyDofs.push_back(Dof::UX);
-- 
2.43.0


From 348ccb5955d2cd31e071677a29f5722b2d3036af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:39 +0000
Subject: [PATCH 42/49] fix: CHECK_NOTNULL doesn't check anything

---
 src/lib/sys.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/sys.h b/src/lib/sys.h
index 68373a9..c68e17b 100755
--- a/src/lib/sys.h
+++ b/src/lib/sys.h
@@ -40,10 +40,9 @@
   #define sprintf_s snprintf
 #endif
 
-// TODO:
-// for some reasons CHECK_NOTNULL from easylogging++ doesn't work on Apple's clang and g++
+// CHECK_NOTNULL from easylogging++ can't be used as an expression
 #undef CHECK_NOTNULL
-#define CHECK_NOTNULL(x) x
+#define CHECK_NOTNULL(x) ::nla3d::checkNotNull((x), #x)
 
 // usefull macros to check floats with threshold
 #define CHECK_EQTH(a, b, th) CHECK(fabs(a-b) < th)
@@ -61,6 +60,14 @@ typedef unsigned long long uint64; //0 to +18 446 744 073 709 551 615
 
 namespace nla3d {
 
+// stops the program if the pointer is null, see CHECK_NOTNULL
+template <class T>
+inline T* checkNotNull(T* ptr, const char* name) {
+  LOG_IF(ptr == nullptr, FATAL) << "Check failed: [" << name << " != nullptr]";
+  return ptr;
+}
+
+
 // singleton for configuring the logger
 class LogInitializer {
 public:
-- 
2.43.0


From 7d666f4f1c9039abd042acf193b5230f3dcec1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:09 +0000
Subject: [PATCH 43/49] fix: nla3d takes the rigid body master node by its
 number after renumbering

---
 src/main.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 13082a1..dc81acf 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -196,6 +196,15 @@ int main (int argc, char* argv[]) {
   if (!readCdbFile (options::modelFilename, md)) {
     LOG(FATAL) << "Can't read FE info from " << options::modelFilename << "file. exiting..";
   }
+  if (options::rigidBodyMasterNode > 0) {
+    // nodes are going to be renumbered by compressNumbers() in order of their appearance
+    auto master = std::find(md.nodesNumbers.begin(), md.nodesNumbers.end(), options::rigidBodyMasterNode);
+    if (master == md.nodesNumbers.end()) {
+      LOG(ERROR) << "There is no node " << options::rigidBodyMasterNode << " (master node of the rigid body)";
+      exit(1);
+    }
+    options::rigidBodyMasterNode = static_cast<uint32>(master - md.nodesNumbers.begin()) + 1;
+  }
   md.compressNumbers();
 
   Material* mat = CHECK_NOTNULL (MaterialFactory::createMaterial(options::materialName));
-- 
2.43.0


From 46e432268da2d28f30ce7d0aa0e02711fc70cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 44/49] fix: nla3d compares reactions of unknown degrees of
 freedom

---
 src/main.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index dc81acf..3b95b3f 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -64,6 +64,16 @@ uint32 getQuantity (const char* str, const std::string& option, double maximum)
   return static_cast<uint32>(value);
 }
 
+// obtain DoF type from a value of command line option
+Dof::dofType getDof (const char* str, const std::string& option) {
+  Dof::dofType dof = Dof::label2dofType(str);
+  if (dof == Dof::UNDEFINED) {
+    LOG(ERROR) << "Option " << option << " needs a degree of freedom (got '" << str << "')";
+    std::exit(1);
+  }
+  return dof;
+}
+
 bool parse_args (int argc, char* argv[]) {
   if (argc < 2) {
     return false;
@@ -123,7 +133,7 @@ bool parse_args (int argc, char* argv[]) {
     } else  {
       options::reactionComponentName = vtmp[0];
       for (size_t i = 1; i < vtmp.size(); i++) {
-        options::reactionDofs.push_back(Dof::label2dofType(vtmp[i])); 
+        options::reactionDofs.push_back(getDof(vtmp[i], "-reaction"));
       }
     }
   }
@@ -142,7 +152,7 @@ bool parse_args (int argc, char* argv[]) {
         options::rigidBodyDofs.push_back(Dof::UZ);
       } else {
         for (size_t i = 2; i < vtmp.size(); i++) {
-          options::rigidBodyDofs.push_back(Dof::label2dofType(vtmp[i])); 
+          options::rigidBodyDofs.push_back(getDof(vtmp[i], "-rigidbody"));
         }
       }
     }
@@ -346,6 +356,10 @@ int main (int argc, char* argv[]) {
     }
     LOG(INFO) << ss.str();
     if (refCurve.size() > 0) {
+      if (reactProc->dofs.size() == 0) {
+        LOG(ERROR) << "There are no degrees of freedom to compare reactions with the reference curve";
+        exit(1);
+      }
       curCurve = reactProc->getReactions(reactProc->dofs[0]); 
       double _error = compareCurves (refCurve, curCurve);
       LOG(INFO) << "Error between reference loading curve and current is " << _error;
-- 
2.43.0


From 712c02894e7c4402ac0a3eaa1757dc4168f29ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:15 +0000
Subject: [PATCH 45/49] fix: size matrix rows from the mesh instead of a fixed
 limit of 100 coupled DoFs

A node coupled with more than 100 DoFs and MPC equations (hub of bars, node
with many constraints, rigid body with many slaves) ended the analysis with
'maxInRow overflow!'.
---
 src/lib/FEStorage.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 1b922a8..74118fb 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -501,7 +501,36 @@ void FEStorage::initSolutionData () {
   delete matM;
   matM = nullptr;
 
-  matK = new BlockSparseSymMatrix<2>({nConstrainedDofs(), nUnknownDofs() + nMpc()});
+  // Estimate the longest row of the matrices: nodal DoF can be coupled with DoFs of all elements
+  // around the node, with DoFs of theirs nodes and with Mpc equations where the node takes part
+  uint32 maxInRow = 100;
+  std::vector<uint32> mpcTerms(nNodes(), 0);
+  for (auto& mpc : mpcs) {
+    for (auto& term : mpc->eq) {
+      assert(term.node > 0 && static_cast<uint32>(term.node) <= nNodes());
+      mpcTerms[term.node-1]++;
+    }
+  }
+  auto nDofsOf = [](DofCollection& dofs, uint32 n) {
+    auto range = dofs.getEntityDofs(n);
+    return static_cast<uint32>(std::distance(range.first, range.second));
+  };
+  for (uint32 nn = 1; nn <= nNodes(); nn++) {
+    uint32 inRow = mpcTerms[nn-1];
+    std::set<uint32> neighbors = {nn};
+    for (auto& en : topology[nn-1]) {
+      inRow += nDofsOf(elementDofs, en);
+      for (uint16 enn = 0; enn < getElement(en).getNNodes(); enn++) {
+        neighbors.insert(getElement(en).getNodeNumber(enn));
+      }
+    }
+    for (auto& nn2 : neighbors) {
+      inRow += nDofsOf(nodeDofs, nn2);
+    }
+    maxInRow = std::max(maxInRow, inRow);
+  }
+
+  matK = new BlockSparseSymMatrix<2>({nConstrainedDofs(), nUnknownDofs() + nMpc()}, maxInRow);
 
   if (transient) {
     // share sparsity info with K matrices
-- 
2.43.0


From 9bd9a7c32b6b34e1abedbcb20f71f95697b91fc6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 20:02:55 +0000
Subject: [PATCH 46/49] fix: a nonlinear solver used again starts from the
 start time

---
 src/lib/FESolver.cpp | 13 +++++++++++++
 src/lib/FESolver.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 1e62216..2020c67 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -125,6 +125,16 @@ void TimeControl::setStartTime(double _startTime) {
 }
 
 
+void TimeControl::reset() {
+  convergedTimeInstances.clear();
+  equilibriumSteps.clear();
+  currentEquilibriumStep = 0;
+  totalNumberOfEquilibriumSteps = 0;
+  currentTimeDelta = 0.0;
+  currentTime = startTime;
+}
+
+
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
 // FESolver
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ //
@@ -450,6 +460,9 @@ void NonlinearFESolver::solve() {
     postProcessors[i]->pre();
   }
 
+  // the solver might be used before
+  timeControl.reset();
+
   double currentCriteria = 0.0;
   double timeDelta = (timeControl.getEndTime() - timeControl.getStartTime()) / numberOfLoadsteps;
 
diff --git a/src/lib/FESolver.h b/src/lib/FESolver.h
index 2f72603..1b1ed35 100644
--- a/src/lib/FESolver.h
+++ b/src/lib/FESolver.h
@@ -44,6 +44,9 @@ public:
 
   void setEndTime (double _endTime);
   void setStartTime (double _startTime);
+
+  // return to start time and forget all performed steps
+  void reset ();
 protected:
   std::list<double> convergedTimeInstances;
   std::list<uint16> equilibriumSteps;
-- 
2.43.0


From 643b77acf42d889d0128812bd07065ca4747c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 47/49] fix: assigning a matrix to itself keeps its values

---
 src/lib/math/Mat.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/math/Mat.h b/src/lib/math/Mat.h
index 289664d..bdea9c9 100755
--- a/src/lib/math/Mat.h
+++ b/src/lib/math/Mat.h
@@ -502,6 +502,7 @@ public:
 	template <uint16 M> void cpVec(Vec<M> &vec, uint16 col=0);
 	dMat& operator= (const dMat &from)
 	{
+		if (this == &from) return *this;
 		resize(from.dimM, from.dimN);
 		memcpy(this->data, from.data, sizeof(double)*dimM*dimN);
 		return *this;
-- 
2.43.0


From 256007f22c4eafdb9de2147582e1ac7da6215e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 48/49] fix: a vector can be assigned from a part of itself

---
 src/lib/math/Vec.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 3f54ba7..d16ec3f 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -224,9 +224,16 @@ dVec& dVec::operator=(const dVec& op) {
   } else if (!op.isInit()) {
     clear();
   } else {
-      if (_size != op.size())
-        reinit(op.size());
-      memcpy(data, op.data, sizeof(double) * op.size());
+      // NOTE: op could be a reference on a part of this vector (or on overlapped part of another one)
+      if (_size != op.size()) {
+        dVec copy(op);
+        clear();
+        std::swap(data, copy.data);
+        std::swap(memory_owner, copy.memory_owner);
+        std::swap(_size, copy._size);
+      } else {
+        memmove(data, op.data, sizeof(double) * op.size());
+      }
   }
   return *this;
 }
-- 
2.43.0


From 90f917a9cf5e8d8d2d8f73246494651ef9d52206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 49/49] fix: command line option left without its value stops
 the program

---
 src/main.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 3b95b3f..97f3c8d 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -53,6 +53,17 @@ double getNumber (const char* str, const std::string& option) {
   return value;
 }
 
+// obtain value of command line option (0 if there is no such option). An option left without its value
+// stops the program.
+char* getValue (char** begin, char** end, const std::string& option) {
+  char* value = getCmdOption(begin, end, option);
+  if (value == 0 && cmdOptionExists(begin, end, option)) {
+    LOG(ERROR) << "Option " << option << " needs a value";
+    std::exit(1);
+  }
+  return value;
+}
+
 // obtain quantity (1, 2, ..) from a value of command line option
 uint32 getQuantity (const char* str, const std::string& option, double maximum) {
   double value = getNumber(str, option);
@@ -85,17 +96,17 @@ bool parse_args (int argc, char* argv[]) {
     options::useVtk = false;
   }
 
-  char* tmp = getCmdOption(argv, argv + argc, "-iterations");
+  char* tmp = getValue(argv, argv + argc, "-iterations");
   if (tmp) {
     options::numberOfIterations = getQuantity(tmp, "-iterations", 65535);
   }
 
-  tmp = getCmdOption(argv, argv + argc, "-loadsteps");
+  tmp = getValue(argv, argv + argc, "-loadsteps");
   if (tmp) {
     options::numberOfLoadsteps = getQuantity(tmp, "-loadsteps", 65534);
   }
 
-  tmp = getCmdOption(argv, argv + argc, "-element");
+  tmp = getValue(argv, argv + argc, "-element");
   if (tmp) {
     options::elementType = ElementFactory::elName2elType(tmp);
   }
@@ -111,7 +122,7 @@ bool parse_args (int argc, char* argv[]) {
     }
   }
 
-  tmp = getCmdOption(argv, argv + argc, "-refcurve");
+  tmp = getValue(argv, argv + argc, "-refcurve");
   if (tmp) {
     options::refCurveFilename = tmp;
   }
@@ -121,7 +132,7 @@ bool parse_args (int argc, char* argv[]) {
     options::curveCompareThreshold = getNumber(tmp, "-threshold");
   }
 
-  tmp = getCmdOption(argv, argv + argc, "-reaction");
+  tmp = getValue(argv, argv + argc, "-reaction");
   if (tmp) {
     options::reactionComponentName = tmp;
   }
@@ -139,7 +150,7 @@ bool parse_args (int argc, char* argv[]) {
   }
 
   vtmp = getCmdManyOptions(argv, argv + argc, "-rigidbody");
-  if (vtmp.size() > 0) {
+  if (cmdOptionExists(argv, argv + argc, "-rigidbody")) {
     if (vtmp.size() < 2) {
       LOG(ERROR) << "Please point master node, componen with slave node and degrees of freedom";
       std::exit(1);
-- 
2.43.0

