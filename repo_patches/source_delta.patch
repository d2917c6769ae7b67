From 81fd78be67ab210c5c078a0119fa3bf43442e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:17 +0000
Subject: [PATCH 01/35] fix: CglZeroHalf assignment aborted when the target
 already held a model

Cgl012Cut::operator= tested its own inp_ilp instead of the source's, so assigning to a
CglZeroHalf on which refreshSolver had been called always ended in abort().
---
 src/CglZeroHalf/Cgl012cut.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglZeroHalf/Cgl012cut.cpp b/src/CglZeroHalf/Cgl012cut.cpp
index 3fedc6f..2d99525 100644
--- a/src/CglZeroHalf/Cgl012cut.cpp
+++ b/src/CglZeroHalf/Cgl012cut.cpp
@@ -4444,7 +4444,7 @@ Cgl012Cut::Cgl012Cut (const Cgl012Cut & rhs) :
   rowMaxPairCount_(rhs.rowMaxPairCount_),
   rowMaxFractionalCount_(rhs.rowMaxFractionalCount_)
 {
-  if (rhs.p_ilp||rhs.vlog||inp_ilp)
+  if (rhs.p_ilp||rhs.vlog||rhs.inp_ilp)
     abort();  
 }
 
@@ -4472,7 +4472,7 @@ Cgl012Cut::operator=(
 #ifdef CGL_ZH_ADVANCED_DEBUG_CONSTRAINT_PROFILING
     cglZeroHalfConstraintProfileStates().erase(this);
 #endif
-    if (rhs.p_ilp||rhs.vlog||inp_ilp)
+    if (rhs.p_ilp||rhs.vlog||rhs.inp_ilp)
       abort();  
     free_log_var();
     free_parity_ilp();
-- 
2.43.0


From a26e7a21969f831942e5e5ba5c9024b7e8f321b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 02/35] fix: copies of a CglZeroHalf produced no cuts until
 refreshed

Copy constructor and assignment copied the model arrays but not the separation data built
from them, so clones silently returned nothing.
---
 src/CglZeroHalf/CglZeroHalf.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index c22c89f..a058641 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -193,6 +193,13 @@ CglZeroHalf::CglZeroHalf (
   cutInfo_.setSepGraphSparseThreshold(source.cutInfo_.getSepGraphSparseThreshold());
   cutInfo_.setRowMaxPairCount(source.cutInfo_.getRowMaxPairCount());
   cutInfo_.setRowMaxFractionalCount(source.cutInfo_.getRowMaxFractionalCount());
+  if (mnz_) {
+    // separation data refers to own copy of model
+    cutInfo_.ilp_load(mr_,mc_,mnz_,mtbeg_,mtcnt_,mtind_,mtval_,
+		      vlb_,vub_,mrhs_,msense_);
+    cutInfo_.alloc_parity_ilp(mr_,mc_,mnz_);
+    cutInfo_.initialize_log_var();
+  }
 }
 
 
@@ -265,6 +272,13 @@ CglZeroHalf::operator=(
     cutInfo_.setSepGraphSparseThreshold(rhs.cutInfo_.getSepGraphSparseThreshold());
     cutInfo_.setRowMaxPairCount(rhs.cutInfo_.getRowMaxPairCount());
     cutInfo_.setRowMaxFractionalCount(rhs.cutInfo_.getRowMaxFractionalCount());
+    if (mnz_) {
+      // separation data refers to own copy of model
+      cutInfo_.ilp_load(mr_,mc_,mnz_,mtbeg_,mtcnt_,mtind_,mtval_,
+			vlb_,vub_,mrhs_,msense_);
+      cutInfo_.alloc_parity_ilp(mr_,mc_,mnz_);
+      cutInfo_.initialize_log_var();
+    }
   }
   return *this;
 }
-- 
2.43.0


From d00675fa92b5fea9b4942f10ac78f16a7d5b5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:22 +0000
Subject: [PATCH 03/35] fix: CglAllDifferent tightened the wrong columns

originalWhich_ was kept in the order of the user's sets but is indexed by the translated
member number, so bounds were read from and written to wrong columns whenever the sets were
not sorted and disjoint.
---
 src/CglAllDifferent/CglAllDifferent.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 6f4a8c7..96d4d3b 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -474,6 +474,11 @@ originalWhich_(NULL)
       assert (iColumn>=0);
       which_[i]=iColumn;
     }
+    // generateCuts looks up the column of each translated member
+    for (i=0;i<maxValue;i++) {
+      if (translate[i]>=0)
+        originalWhich_[translate[i]]=i;
+    }
     delete [] translate;
   }
 }
-- 
2.43.0


From 25f49a77a887bcae24c9c7877994ba43fb61e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:22 +0000
Subject: [PATCH 04/35] fix: CglAllDifferent with no sets dereferenced a null
 pointer

---
 src/CglAllDifferent/CglAllDifferent.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 96d4d3b..de09ef3 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -34,6 +34,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   int nCols=si.getNumCols();
 #endif
   int i;
+  if (!start_)
+    return; // no sets
   const double * lower = si.getColLower();
   const double * upper = si.getColUpper();
 #ifdef CGL_DEBUG
@@ -436,6 +438,7 @@ CglAllDifferent::CglAllDifferent (int numberSets,
 :
 CglCutGenerator(),
 numberSets_(numberSets),
+numberDifferent_(0),
 maxLook_(2),
 logLevel_(0),
 start_(NULL),
-- 
2.43.0


From e02dcba950f21565c6b11d0dca8f5b84acbf8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:22 +0000
Subject: [PATCH 05/35] fix: CglAllDifferent wrote out of bounds when it only
 looks at some sets

Members of sets that are skipped because of the size limit can have values outside the range
of the table, which was sized from the sets looked at only.
---
 src/CglAllDifferent/CglAllDifferent.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index de09ef3..0dbf9d9 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -132,11 +132,15 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   int * alreadyFixed = new int[numberDifferent_];
   for (i=0;i<numberDifferent_;i++) {
     alreadyFixed[i]=-1;
+    if (backStart[i]==backStart[i+1])
+      continue; // only in sets we are not looking at
     int startV = i*gap + lo[i] - offset;
     int n = up[i]-lo[i]+1;
     memset(possible+startV,1,n);
   }
   for (i=0;i<numberDifferent_;i++) {
+    if (backStart[i]==backStart[i+1])
+      continue;
     int n = up[i]-lo[i]+1;
     if (n==1) {
       int fixedAt = lo[i]-offset;
@@ -372,6 +376,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     CoinPackedVector ubs;
     int nTightened=0;
     for (i=0;i<numberDifferent_;i++) {
+      if (backStart[i]==backStart[i+1])
+        continue;
       int iColumn = originalWhich_[i];
       char * allowed = possible+i*gap;
       int firstLo=-1;
-- 
2.43.0


From b63b73ba022143bdc6b213555024620969ed6b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:43 +0000
Subject: [PATCH 06/35] fix: CglKnapsackCover returned invalid lifted covers
 when variables at one already use up the rhs

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 873fcc2..800cf76 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -2235,7 +2235,10 @@ CglKnapsackCover::liftUpDownAndUncomplementAndAdd(
   }
 #endif
 
-  //assert ( unsatRhs > 0 );
+  // The cover is fracCover together with atOne, so if atOne alone already uses
+  // up the rhs the reduced row gives nothing (fracCover alone need not be a cover)
+  if (unsatRhs<=0.0)
+    return;
 
   // If there is something to lift, then calculate the lifted coefficients
   if (unsatRhs>0.0&&(remainder.getNumElements()+atOne.getNumElements())> 0){
-- 
2.43.0


From a87cb6579384521cbb9588f267ba84ae46707103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:33 +0000
Subject: [PATCH 07/35] fix: CglKnapsackCover::createCliques left a negative
 clique count on an infeasible row

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 800cf76..7b67615 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3999,6 +3999,9 @@ CglKnapsackCover::createCliques( OsiSolverInterface & si,
       }
     }
   }
+  // infeasible - no clique information
+  if (numberCliques_<0)
+    numberCliques_=0;
   if (numberCliques_>0) {
     cliqueType_ = new CliqueType [numberCliques_];
     cliqueStart_ = new int [numberCliques_+1];
-- 
2.43.0


From b5b24c014704903d94fb9b964851d1331f53c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:06 +0000
Subject: [PATCH 08/35] fix: CglSimpleRounding rounded the rhs down without
 allowing for round off

---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 92687db..0190da9 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -130,7 +130,8 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     for (k=0; k<irow.getNumElements(); k++){
         cut.insert(irow.getIndices()[k],xInt[k]/gcd);
     }
-    double cutRhs = floor((b*pow(10.0,power))/gcd);
+    // (allow for round off in netting out so as not to cut off too much)
+    double cutRhs = floor((b*pow(10.0,power))/gcd+epsilon_);
 
     // un-negate the negated variables in the cut
     {
-- 
2.43.0


From 4dcf4ec1a5f735ebe3b344d285f6822525513761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:09 +0000
Subject: [PATCH 09/35] fix: CglClique took rows with possibly negative columns
 for cliques

---
 src/CglClique/CglCliqueHelper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index 2fadaab..b4e01d0 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -115,6 +115,7 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
    // coefficients 
    const CoinPackedMatrix& mrow = *si.getMatrixByRow();
    const double* rub = si.getRowUpper();
+   const double* collb = si.getColLower();
    for (i = 0; i < numrows; ++i) {
       if (rub[i] != 1.0||i>=numOriginalRows) {
 	 clique[i] = 0;
@@ -122,9 +123,10 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
       }
       if (clique[i] == 1) {
 	 const CoinShallowPackedVector& vec = mrow.getVector(i);
+	 const int* ind = vec.getIndices();
 	 const double* elem = vec.getElements();
 	 for (j = vec.getNumElements() - 1; j >= 0; --j) {
-	    if (elem[j] < 0) {
+	    if (elem[j] < 0 || collb[ind[j]] < 0) {
 	       clique[i] = 0;
 	       break;
 	    }
-- 
2.43.0


From b358394b95a895ad63e9f4cd29326ea4e8eeed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:31 +0000
Subject: [PATCH 10/35] fix: CglOddHole ignored the violation and size limits
 set by the user

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index cb9b0f5..c608387 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -44,6 +44,9 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   // If it does then suitable rows are subset of information
   
   CglOddHole temp;
+  temp.minimumViolation_ = minimumViolation_;
+  temp.minimumViolationPer_ = minimumViolationPer_;
+  temp.maximumEntries_ = maximumEntries_;
   int * checkRow = new int[nRows];
   int i;
   if (!suitableRows_) {
-- 
2.43.0


From aa58e6c35b7a285b1ae82a12548f6fe03e39e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:35 +0000
Subject: [PATCH 11/35] fix: CglOddHole leaked lists and assignment from an
 object without a row list lost all rows

---
 src/CglOddHole/CglOddHole.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index c608387..800f6e0 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -663,6 +663,7 @@ void CglOddHole::createRowList( const OsiSolverInterface & si,
   /// This version passes in a list - 1 marks possible
 void CglOddHole::createRowList(int numberRows, const int * whichRow)
 {
+  delete [] suitableRows_;
   suitableRows_=new int [numberRows];
   numberRows_=numberRows;
   memcpy(suitableRows_,whichRow,numberRows*sizeof(int));
@@ -673,6 +674,8 @@ void CglOddHole::createRowList(int numberRows, const int * whichRow)
 void CglOddHole::createCliqueList(int numberCliques, const int * cliqueStart,
 		     const int * cliqueMember)
 {
+  delete [] startClique_;
+  delete [] member_;
   numberCliques_=numberCliques;
   startClique_=new int[numberCliques_+1];
   memcpy(startClique_,cliqueStart,(numberCliques_+1)*sizeof(int));
@@ -780,8 +783,12 @@ CglOddHole::operator=(
     delete [] suitableRows_;
     // copy list of suitable rows
     numberRows_=rhs.numberRows_;
-    suitableRows_=new int[numberRows_];
-    memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    if (numberRows_) {
+      suitableRows_=new int[numberRows_];
+      memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    } else {
+      suitableRows_=NULL;
+    }
     delete [] startClique_;
     delete [] member_;
     // copy list of cliques
-- 
2.43.0


From 802a7291378eefaacc7b387fd53348cb0ecf621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:30 +0000
Subject: [PATCH 12/35] fix: CglKnapsackCover kept a dangling row list when the
 list was emptied

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 7b67615..20ad269 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -803,6 +803,7 @@ CglKnapsackCover::setTestedRowIndices(int num, const int* ind)
 {
    if (rowsToCheck_)
       delete[] rowsToCheck_;
+   rowsToCheck_ = 0;
    numRowsToCheck_ = num;
    if (num > 0) {
       rowsToCheck_ = new int[num];
-- 
2.43.0


From de6fdb3a5ad7a8c73115bcb85b116a295bc3ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:02 +0000
Subject: [PATCH 13/35] fix: CglOddHole mishandled columns fixed at nonzero
 values

---
 src/CglOddHole/CglOddHole.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 800f6e0..f2e79cb 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -63,6 +63,7 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   double * solution = new double[nCols];
   memcpy(solution,si.getColSolution(),nCols*sizeof(double));
   const int * column = rowCopy->getIndices();
+  const double * element = rowCopy->getElements();
   const CoinBigIndex * rowStart = rowCopy->getVectorStarts();
   const int * rowLength = rowCopy->getVectorLengths(); 
   const double * collower = si.getColLower();
@@ -90,6 +91,9 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       solution[i]=0.0;
       fixed[i]=3;
     }
+    // these are moved to the right hand side of their rows
+    if (colupper[i]-collower[i]<epsilon_&&fabs(collower[i])>epsilon_)
+      fixed[i]=4;
   }
   // first do packed
   const double * rowlower = si.getRowLower();
@@ -98,11 +102,13 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowupper[i]>1.001) suitable[i]=-1;
+      double upper=rowupper[i];
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
+	if (fixed[icol]==4) upper -= collower[icol]*element[k];
       }
+      if (upper>1.001) suitable[i]=-1;
       if (sum<0.9) suitable[i]=-1; //say no good
     }
   }
@@ -124,13 +130,19 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowlower[i]<0.999) sum=2.0;
-      if (rowupper[i]>1.001) doCover=true;
+      double upper=rowupper[i];
+      double lower=rowlower[i];
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
 	if (fixed[icol]==1) sum=2.0; //don't use if any at 1
+	if (fixed[icol]==4) {
+	  upper -= collower[icol]*element[k];
+	  lower -= collower[icol]*element[k];
+	}
       }
+      if (lower<0.999) sum=2.0;
+      if (upper>1.001) doCover=true;
       if (sum>1.1) {
 	suitable[i]=-1; //say no good
       } else {
@@ -445,6 +457,7 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 	    int irow=mrow[k];
 	    for (j=rowStart[irow];j<rowStart[irow]+rowLength[irow];j++) {
 	      int icol=column[j];
+	      if (fixedColumn[icol]==4) continue; // in rhs
 	      if (!countcol[icol]) candidate[nincut++]=icol;
 	      countcol[icol]++;
 	    }
-- 
2.43.0


From b30557a163edd3c5aae17c4ffe38a993fbf4b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:10 +0000
Subject: [PATCH 14/35] fix: CglLiftAndProject looked at the type of the wrong
 column

The loop over the columns tested intVar[i], where i is left over from an
earlier loop over the rows, so it read out of bounds, and treated general
integer columns as binary (invalid cuts) or skipped all binary columns.
---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index fccfb35..c0e18a0 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -244,7 +244,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const char * intVar = si.getColType();
 
   for (j=0;j<n;j++){
-    if (intVar[i]!=1) continue; // Better to ask coneSi? No! 
+    if (intVar[j]!=1) continue; // Better to ask coneSi? No! 
                                    // coneSi has no binInfo.
     equalObj1=eq(x[j],0);
     equalObj2=eq(x[j],1);
-- 
2.43.0


From f215650852fc0412c36d87d74b32838a46a25cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:13 +0000
Subject: [PATCH 15/35] fix: CglLiftAndProject leaked its cone solver, a work
 array and warm starts

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c0e18a0..e60ab65 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -279,6 +279,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
       coneSi->initialSolve();
     }
     if(coneSi->isProvenOptimal()){
+      delete warmStart;
       warmStart = coneSi->getWarmStart();
       haveWarmStart=true;
       const double * wstar = coneSi->getColSolution();
@@ -313,8 +314,11 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   delete [] alpha;
   delete [] ustar;
   delete [] nVectorIndices;
+  delete [] Atildex;
+  delete warmStart;
   // BMatrix, BColLowers,BColUppers, BObjective, BRowLowers, BRowUppers
-  // are all freed by OsiSolverInterface destructor (?)
+  // are all freed by OsiSolverInterface destructor
+  delete coneSi;
   delete [] BLengths;
   delete [] BStarts;
   delete [] BIndices;
-- 
2.43.0


From b51bc3613622513f72e9a8d75d60e8f273d14443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:02 +0000
Subject: [PATCH 16/35] fix: CglClique kept the solver's tolerance as its own
 setting after an early exit

When there were too many rows or too few columns generateCuts returned
without putting petol back, so the tolerance of that solver became the
minimum violation of all later calls.
---
 src/CglClique/CglClique.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 4772d0c..3242850 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -123,6 +123,8 @@ CglClique::generateCuts(const OsiSolverInterface& si, OsiCuts & cs,
    if (sp_numrows > MAX_CGLCLIQUE_ROWS || sp_numcols < 2 || sp_numcols>MAX_CGLCLIQUE_COLS) {
      //printf("sp_numrows is %d\n",sp_numrows);
      deleteSetPackingSubMatrix();
+     if (! has_petol_set)
+       petol = -1;
      return; // too many rows or too few columns!
    }
 
-- 
2.43.0


From 5a0390cfaa22a6d66060b050d4f818ec40f388ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:27 +0000
Subject: [PATCH 17/35] fix: CglZeroHalf marked cuts built with node bounds as
 globally valid

A call without the global flag overwrote the saved root bounds by those of
the node, and after setFlags(1) cuts from those bounds were called global.
---
 src/CglZeroHalf/CglZeroHalf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index a058641..6e6c578 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -24,8 +24,13 @@ CglZeroHalf::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     int *cbeg=NULL, *ccnt=NULL,*cind=NULL,*cval=NULL,*crhs=NULL;
     char *csense=NULL;
     const double * solution = si.getColSolution();
+    // bounds of model given to refreshSolver
+    int * saveLower = NULL;
+    int * saveUpper = NULL;
     if ((flags_&1)==0) {
       // redo bounds
+      saveLower = CoinCopyOfArray(vlb_,mc_);
+      saveUpper = CoinCopyOfArray(vub_,mc_);
       const double * columnLower = si.getColLower();
       const double * columnUpper = si.getColUpper();
       int numberColumns = si.getNumCols();
@@ -99,6 +104,13 @@ CglZeroHalf::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       }
       delete [] temp;
     }
+    if (saveLower) {
+      // put back as global cuts must not use bounds of this node
+      CoinMemcpyN(saveLower,mc_,vlb_);
+      CoinMemcpyN(saveUpper,mc_,vub_);
+      delete [] saveLower;
+      delete [] saveUpper;
+    }
     if (cnum) {
       // add cuts
       double * element = new double[mc_];
-- 
2.43.0


From 10072e1d515b84858bf9a859c779fe6085b87364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:58 +0000
Subject: [PATCH 18/35] fix: CglClique read out of bounds for an empty column

---
 src/CglClique/CglCliqueHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index b4e01d0..3e87710 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -203,7 +203,7 @@ CglClique::createSetPackingSubMatrix(const OsiSolverInterface& si)
       const CoinShallowPackedVector& vec = mcol.getVector(sp_orig_col_ind[j]);
       const int len = vec.getNumElements();
       const int* ind = vec.getIndices();
-      if (ind[0] < ind[len-1]) {
+      if (len && ind[0] < ind[len-1]) {
 	for (i = 0; i < len; ++i) {
 	   const int sp_row = clique[ind[i]];
 	   if (sp_row >= 0) {
-- 
2.43.0


From 5974eb335bf53059a126816b9cea4df9eccf3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:13 +0000
Subject: [PATCH 19/35] fix: CglDuplicateRow looked beyond the end of a clique
 when testing for subsets

It could read past the end of the entries, or take the first entry of the
next clique for one of this and remove a row which is not implied.
---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index c74e8b0..ba86059 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2831,7 +2831,8 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	// what about different fixes bool odd=false;
 	for (j=cliqueStart[kClique];j<cliqueStart[kClique+1];j++) {
 	  int kColumn = entry[j];
-	  int iColumn = entry[j+offset];
+	  int iColumn = j+offset<cliqueStart[iClique+1] ? entry[j+offset] :
+	    numberIntegers;
 	  while (iColumn<kColumn) {
 	    offset++;
 	    if (j+offset<cliqueStart[iClique+1]) {
-- 
2.43.0


From 93910e5ec0a5c644e50fec95200367c7eb6244a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:17 +0000
Subject: [PATCH 20/35] fix: CglOddHole wrote beyond its row list when a cycle
 is longer than the number of rows

---
 src/CglOddHole/CglOddHole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index f2e79cb..a36b495 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -184,7 +184,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 
   // we need only look at suitable rows and variables with unsatisfied 0-1
   // lookup from true row to compressed matrix
-  int * mrow = new int[nRows];
+  // also used for rows along a path (at most one for each column)
+  int * mrow = new int[std::max(nRows,nCols)];
   // lookup from true column to compressed
   int * lookup = new int[nCols];
   // number of columns in compressed matrix
-- 
2.43.0


From 736b32ca7a1d5adce8053d3b0027abb56715b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:30 +0000
Subject: [PATCH 21/35] fix: CglStored never finished reading a file without
 end marker and kept incomplete records

---
 src/CglCommon/CglStored.cpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 432726a..6591fc2 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -283,23 +283,19 @@ CglStored::CglStored(const char *fileName)
 {
   FILE *fp = fopen(fileName, "rb");
   if (fp) {
-#ifndef NDEBUG
-    size_t numberRead;
-#endif
     int maxInCut = 0;
     int *index = NULL;
     double *coefficient = NULL;
     double rhs[2];
     int n = 0;
     while (n >= 0) {
-#ifndef NDEBUG
-      numberRead = fread(&n, sizeof(int), 1, fp);
-      assert(numberRead == 1);
-#else
-      fread(&n, sizeof(int), 1, fp);
-#endif
+      // stop at end of file or a read error - an incomplete record is ignored
+      if (fread(&n, sizeof(int), 1, fp) != 1)
+        break;
       if (n < 0)
         break;
+      if (fread(rhs, sizeof(double), 2, fp) != 2)
+        break;
       if (n > maxInCut) {
         maxInCut = n;
         delete[] index;
@@ -307,14 +303,8 @@ CglStored::CglStored(const char *fileName)
         index = new int[maxInCut];
         coefficient = new double[maxInCut];
       }
-#ifndef NDEBUG
-      numberRead = fread(rhs, sizeof(double), 2, fp);
-      assert(numberRead == 2);
-#else
-      fread(rhs, sizeof(double), 2, fp);
-#endif
-      fread(index, sizeof(int), n, fp);
-      fread(coefficient, sizeof(double), n, fp);
+      if (fread(index, sizeof(int), n, fp) != static_cast< size_t >(n) || fread(coefficient, sizeof(double), n, fp) != static_cast< size_t >(n))
+        break;
       OsiRowCut rc;
       rc.setRow(n, index, coefficient, false);
       rc.setLb(rhs[0]);
-- 
2.43.0


From 324199b97b47c667728828c60b9d4d54dbeab580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:37 +0000
Subject: [PATCH 22/35] fix: CglTreeProbingInfo lost an implication whose
 column looked like the end marker

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 9e6b3cd..c640199 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1340,7 +1340,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_); // not a valid sequence
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
@@ -1363,7 +1363,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_); // not a valid sequence
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
-- 
2.43.0


From 570f8648c261c2e366821c713a0e0fe4713c42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:37 +0000
Subject: [PATCH 23/35] fix: CglTreeProbingInfo looked up columns that are not
 0-1 beyond its list of 0-1 columns

---
 src/CglCommon/CglTreeInfo.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index c640199..2e15fa7 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1392,6 +1392,8 @@ int CglTreeProbingInfo::fixColumns(OsiSolverInterface &si) const
       int j;
       for (j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
         if (fixToOne) {
@@ -1420,6 +1422,8 @@ int CglTreeProbingInfo::fixColumns(OsiSolverInterface &si) const
       int j;
       for (j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
         if (fixToOne) {
@@ -1469,6 +1473,8 @@ int CglTreeProbingInfo::fixColumns(int iColumn, int value, OsiSolverInterface &s
     int j;
     for (j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
       int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+      if (kColumn >= numberIntegers_)
+        continue; // not 0-1
       kColumn = integerVariable_[kColumn];
       bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
       if (fixToOne) {
@@ -1497,6 +1503,8 @@ int CglTreeProbingInfo::fixColumns(int iColumn, int value, OsiSolverInterface &s
     int j;
     for (j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
       int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+      if (kColumn >= numberIntegers_)
+        continue; // not 0-1
       kColumn = integerVariable_[kColumn];
       bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
       if (fixToOne) {
@@ -1573,6 +1581,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
       int j;
       for (j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         assert(kColumn != iColumn);
@@ -1612,6 +1622,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
       }
       for (j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn >= numberIntegers_)
+          continue; // not 0-1
         kColumn = integerVariable_[kColumn];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         assert(kColumn != iColumn);
@@ -1652,6 +1664,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
     } else if (upper[iColumn] == 0.0) {
       for (int j = toZero_[jColumn]; j < toOne_[jColumn]; j++) {
         int kColumn01 = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn01 >= numberIntegers_)
+          continue; // not 0-1
         int kColumn = integerVariable_[kColumn01];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
@@ -1686,6 +1700,8 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
     } else {
       for (int j = toOne_[jColumn]; j < toZero_[jColumn + 1]; j++) {
         int kColumn01 = sequenceInCliqueEntry(fixEntry_[j]);
+        if (kColumn01 >= numberIntegers_)
+          continue; // not 0-1
         int kColumn = integerVariable_[kColumn01];
         assert(kColumn >= 0 && kColumn < si.getNumCols());
         bool fixToOne = oneFixesInCliqueEntry(fixEntry_[j]);
-- 
2.43.0


From 7862986a45bfe565c40cc156e1b9245bed54cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:37 +0000
Subject: [PATCH 24/35] fix: CglTreeProbingInfo leaked in assignment and when
 generateCuts proves infeasibility

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 2e15fa7..23c12fe 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -200,8 +200,6 @@ CglTreeProbingInfo::operator=(const CglTreeProbingInfo &rhs)
         toZero_ = NULL;
         toOne_ = NULL;
       }
-      toZero_ = CoinCopyOfArray(rhs.toZero_, numberIntegers_ + 1);
-      toOne_ = CoinCopyOfArray(rhs.toOne_, numberIntegers_);
       integerVariable_ = CoinCopyOfArray(rhs.integerVariable_, numberIntegers_);
       backward_ = CoinCopyOfArray(rhs.backward_, numberVariables_);
     } else {
@@ -1694,6 +1692,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
@@ -1730,6 +1729,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
-- 
2.43.0


From ca6830883afea618c221c9aa277a386d84bd3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:48 +0000
Subject: [PATCH 25/35] fix: CglTreeProbingInfo::analyze looked beyond the end
 of a clique when testing for subsets

It could read past the end of the entries, or take the first entry of the
next clique for one of this and drop a clique which is not implied.
---
 src/CglCommon/CglTreeInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 23c12fe..394d8ae 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -416,7 +416,9 @@ static int outDupsEtc(int numberIntegers, int &numberCliques, int &numberMatrixC
         // what about different fixes bool odd=false;
         for (j = cliqueStart[kClique] + 1; j < cliqueStart[kClique + 1]; j++) {
           int kColumn = sequenceInCliqueEntry(entry[j]);
-          int iColumn = sequenceInCliqueEntry(entry[j + offset]);
+          int iColumn = j + offset < cliqueStart[iClique + 1]
+            ? static_cast< int >(sequenceInCliqueEntry(entry[j + offset]))
+            : numberIntegers;
           if (iColumn > kColumn) {
             subset = false;
           } else {
-- 
2.43.0


From 971e549bd9e6c51daa88e6f176f03ad4ff7a929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:51 +0000
Subject: [PATCH 26/35] fix: CglDuplicateRow keeps the equality among identical
 cliques

Among rows with the same 0-1 columns the lowest numbered row was kept even
if it is an inequality and another is an equality, so cleaning relaxed the model.
---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index ba86059..b315ace 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2735,7 +2735,11 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	if (iValue<numberIntegers) 
 	  break;
 	if (cliqueType[kClique]=='E') {
-	  iLowest = std::min(iLowest,kClique);
+	  // an equality has to be kept rather than an inequality
+	  if (type=='S')
+	    iLowest = kClique;
+	  else
+	    iLowest = std::min(iLowest,kClique);
 	  type='E';
 	} else if (type=='S') {
 	  iLowest = std::min(iLowest,kClique);
-- 
2.43.0


From 7f7e38612f3faff2b14704328d7a8f06cdf443ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:58 +0000
Subject: [PATCH 27/35] fix: CglDuplicateRow clique mode takes only integer
 columns as 0-1

Rounding of row sides and the fixings are wrong for continuous columns.
---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index b315ace..cb07d32 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2958,7 +2958,7 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
   int numberColumns=si.getNumCols();
   int * backward = new int [numberColumns];
   for (int i=0;i<numberColumns;i++) {
-    if (lower[i]==0.0&&upper[i]==1.0) 
+    if (lower[i]==0.0&&upper[i]==1.0&&si.isInteger(i)) 
       backward[i]=numberIntegers++;
     else
       backward[i]=-1;
-- 
2.43.0


From 1f67b07c93488b336f5d6ea243436bbcb9b872ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:38 +0000
Subject: [PATCH 28/35] fix: CglDuplicateRow clique mode sizes its row marks by
 the solver at hand

The array of marks had the size of the solver of the previous call, so a
solver with more rows was written beyond its end.
---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index cb07d32..82c3f3c 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2964,6 +2964,10 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
       backward[i]=-1;
   }
   int * whichP = new int [numberIntegers];
+  // the solver may have more rows than at the last call
+  delete [] duplicate_;
+  duplicate_ = new int [numberRows];
+  CoinFillN(duplicate_,numberRows,-1);
   for (int iPass=0;iPass<2;iPass++) {
     if (iPass) {
       cliqueStart = new int [numberCliques+1];
-- 
2.43.0


From 439060cb8cef3452a51d34299f6a267e373b5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:46 +0000
Subject: [PATCH 29/35] fix: CglDuplicateRow::outDuplicates does not act on
 marks of an earlier call

In a mode that marks nothing the rows marked by an earlier call, maybe on
another solver, were deleted.
---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 82c3f3c..1787026 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -3344,6 +3344,11 @@ CglDuplicateRow::outDuplicates( OsiSolverInterface * solver)
   info.strengthenRow= NULL;
   info.pass = 0;
   OsiCuts cs;
+  // forget marks of an earlier call (maybe on another solver)
+  int numberMarks = std::max(numberRows,matrix_.getNumRows());
+  delete [] duplicate_;
+  duplicate_ = new int[numberMarks];
+  CoinFillN(duplicate_,numberMarks,-1);
   generateCuts(*solver,cs,info);
   // Get rid of duplicate rows
   int * which = new int[numberRows]; 
-- 
2.43.0


From 621cc2e1e6756fdb7a59a354c84fcd76f1576000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:24 +0000
Subject: [PATCH 30/35] fix: CglDuplicateRow clique mode keeps marks for every
 row of its matrix

Copying the generator read beyond the array of marks when the last solver
had less than half of the rows of the matrix it was refreshed with.
---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 1787026..cb6abeb 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -3088,7 +3088,10 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
     if (iClique>=0) 
       fixed[iClique]=iRow;
   }
-  int * dup2 = new int [2*numberRows];
+  // copies of this object expect a mark for every row of matrix_
+  int numberMarks = std::max(2*numberRows,matrix_.getNumRows());
+  int * dup2 = new int [numberMarks];
+  CoinFillN(dup2,numberMarks,-1);
   int * used2 = dup2+numberRows;
   int * used = dups+numberCliques;
   for (iRow=0;iRow<numberRows;iRow++) {
-- 
2.43.0


From 65b6fad3dc6431ae41448ec599bcd8ed74b8bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:01 +0000
Subject: [PATCH 31/35] fix: CglSimpleRounding divided by zero or overflowed on
 badly scaled rows

The power of ten is found element by element but applied to the whole row:
an element could become zero (division by zero in gcd) or exceed int.
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 0190da9..9f25ac3 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -91,8 +91,15 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       printf("The (double) coefficients and their integer-ized counterparts:\n");
 #endif
 
+      bool representable = true;
       for (k=0; k<irow.getNumElements(); k++){
 	dxInt = irow.getElements()[k]*pow(10.0,power);
+	// power was chosen element by element, so the common scaling can
+	// still take an element out of the range of positive ints
+	if (dxInt < 0.5 || dxInt > 2147483646.0) {
+	  representable = false;
+	  break;
+	}
 	xInt[k]= static_cast<int> (dxInt+0.5); // Need to add the 0.5 
 	// so that a dxInt=9.999 will give a xInt=1
 
@@ -102,6 +109,13 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 
       }
 
+      if (!representable) {
+	delete [] xInt;
+	for(k=0; k<irow.getNumElements(); k++) negative[irow.getIndices()[k]]=false;
+	irow.setVector(0,NULL,NULL);
+	continue;
+      }
+
     } else {
 
       // If overflow is detected, one warning message is printed and 
-- 
2.43.0


From ed2a10f0d2928ded50109d9b8ed98ab47d076ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 32/35] fix: CglRedSplit::generateCpp wrote calls that do not
 compile (redSplit.set.EPS...)

---
 src/CglRedSplit/CglRedSplit.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 9eb89d6..ca3ed2b 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1910,21 +1910,21 @@ CglRedSplit::generateCpp(FILE * fp)
   else
     fprintf(fp,"4  redSplit.setLUB(%g);\n",param.getLUB());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  redSplit.set.EPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  redSplit.setEPS(%g);\n",param.getEPS());
   else
     fprintf(fp,"4  redSplit.setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
     fprintf(fp,"3  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_COEFF_LUB()!=other.param.getEPS_COEFF_LUB())
-    fprintf(fp,"3  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"3  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"4  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   if (param.getNormIsZero()!=other.param.getNormIsZero())
     fprintf(fp,"3  redSplit.setNormIsZero(%g);\n",param.getNormIsZero());
   else
-- 
2.43.0


From ba3b168dc1652cb274a20cec5feb8b40ec5fb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:31 +0000
Subject: [PATCH 33/35] fix: CglZeroHalf::generateCpp left out the flags

---
 src/CglZeroHalf/CglZeroHalf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index 6e6c578..c81ae1f 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -540,6 +540,8 @@ CglZeroHalf::generateCpp( FILE * fp)
     fprintf(fp,"3  zeroHalf.setRowMaxPairCount(%d);\n",getRowMaxPairCount());
   if (getRowMaxFractionalCount()!=other.getRowMaxFractionalCount())
     fprintf(fp,"3  zeroHalf.setRowMaxFractionalCount(%d);\n",getRowMaxFractionalCount());
+  if (getFlags()!=other.getFlags())
+    fprintf(fp,"3  zeroHalf.setFlags(%d);\n",getFlags());
   return "zeroHalf";
 }
 #include <vector>
-- 
2.43.0


From d6e3a4939aaebf6359a7c68018220b836e872e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:59 +0000
Subject: [PATCH 34/35] fix: CglRedSplit wraps around the end of the basis when
 it drops tableau rows

---
 src/CglRedSplit/CglRedSplit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index ca3ed2b..1dd2a39 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1450,7 +1450,7 @@ double *slack_val = new double[nrow];
     }
 
     int ind_row = start + i;
-    if(ind_row > nrow) {
+    if(ind_row >= nrow) {
       ind_row -= nrow;
     }
 
-- 
2.43.0


From 8f2786836c85214f2e812e6fc2acc62253805e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 35/35] fix: CglRedSplitParam::getMAXDYN returned MAXDYN_LUB

---
 src/CglRedSplit/CglRedSplitParam.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplitParam.hpp b/src/CglRedSplit/CglRedSplitParam.hpp
index 3cbb4bb..1bb073c 100644
--- a/src/CglRedSplit/CglRedSplitParam.hpp
+++ b/src/CglRedSplit/CglRedSplitParam.hpp
@@ -99,7 +99,7 @@ public:
   // coefficients in a cut. Default: 1e8.
   virtual void setMAXDYN(double value);
   /** Get the value of MAXDYN */
-  inline double getMAXDYN() const {return MAXDYN_LUB;}
+  inline double getMAXDYN() const {return MAXDYN;}
 
   // Set the maximum ratio between largest and smallest non zero 
   // coefficient in a cut involving structural variables with
-- 
2.43.0

