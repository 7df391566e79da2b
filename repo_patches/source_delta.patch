From 87f660066e71737d9237399be60983adbec623a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:32 +0000
Subject: [PATCH 01/71] fix: clique generator must not use rows in which a
 column can be negative

A row with right-hand side 1 was taken as a clique row if its coefficients are
nonnegative, even if one of its columns has a negative lower bound; the cuts
derived from it removed integer feasible points.
---
 src/CglClique/CglCliqueHelper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index 2fadaab..658e2e2 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -115,6 +115,7 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
    // coefficients 
    const CoinPackedMatrix& mrow = *si.getMatrixByRow();
    const double* rub = si.getRowUpper();
+   const double* clb = si.getColLower();
    for (i = 0; i < numrows; ++i) {
       if (rub[i] != 1.0||i>=numOriginalRows) {
 	 clique[i] = 0;
@@ -122,9 +123,11 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
       }
       if (clique[i] == 1) {
 	 const CoinShallowPackedVector& vec = mrow.getVector(i);
+	 const int* ind = vec.getIndices();
 	 const double* elem = vec.getElements();
 	 for (j = vec.getNumElements() - 1; j >= 0; --j) {
-	    if (elem[j] < 0) {
+	    // the rest of the row must not be able to go below zero
+	    if (elem[j] < 0 || clb[ind[j]] < 0) {
 	       clique[i] = 0;
 	       break;
 	    }
-- 
2.43.0


From 1e009a8769785ac380d2237f2b3b8699979d8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:32 +0000
Subject: [PATCH 02/71] fix: clique generator must restore its minimum
 violation on the early return

The primal tolerance of the solver stayed behind as if the user had set it.
---
 src/CglClique/CglClique.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 4772d0c..3242850 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -123,6 +123,8 @@ CglClique::generateCuts(const OsiSolverInterface& si, OsiCuts & cs,
    if (sp_numrows > MAX_CGLCLIQUE_ROWS || sp_numcols < 2 || sp_numcols>MAX_CGLCLIQUE_COLS) {
      //printf("sp_numrows is %d\n",sp_numrows);
      deleteSetPackingSubMatrix();
+     if (! has_petol_set)
+       petol = -1;
      return; // too many rows or too few columns!
    }
 
-- 
2.43.0


From bc5eafbc25cd3e427ffd92e61c96a7625724ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:52 +0000
Subject: [PATCH 03/71] fix: clique generator must not read the entries of an
 empty column

---
 src/CglClique/CglCliqueHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index 658e2e2..46da097 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -204,7 +204,7 @@ CglClique::createSetPackingSubMatrix(const OsiSolverInterface& si)
       const CoinShallowPackedVector& vec = mcol.getVector(sp_orig_col_ind[j]);
       const int len = vec.getNumElements();
       const int* ind = vec.getIndices();
-      if (ind[0] < ind[len-1]) {
+      if (len > 0 && ind[0] < ind[len-1]) {
 	for (i = 0; i < len; ++i) {
 	   const int sp_row = clique[ind[i]];
 	   if (sp_row >= 0) {
-- 
2.43.0


From e159006d04d682e84aa6cf9aa0f44be1e9b92847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:52 +0000
Subject: [PATCH 04/71] fix: knapsack cover must not add a cover it cannot lift
 down

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 873fcc2..3057639 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -2236,6 +2236,10 @@ CglKnapsackCover::liftUpDownAndUncomplementAndAdd(
 #endif
 
   //assert ( unsatRhs > 0 );
+  // Without room left by the vars atOne the cover inequality is only valid
+  // if it is lifted down, and that is not possible here.
+  if (unsatRhs <= 0.0 && atOne.getNumElements() > 0)
+    return;
 
   // If there is something to lift, then calculate the lifted coefficients
   if (unsatRhs>0.0&&(remainder.getNumElements()+atOne.getNumElements())> 0){
-- 
2.43.0


From 9e2d63527fe78f957f50e307f5cddb462a7742f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 05/71] fix: odd hole generator must net out columns fixed at a
 nonzero value

---
 src/CglOddHole/CglOddHole.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index cb9b0f5..fd9eb4f 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -87,19 +87,25 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       solution[i]=0.0;
       fixed[i]=3;
     }
+    // fixed at nonzero value - moved to the right hand side of its rows
+    if (colupper[i]-collower[i]<epsilon_&&collower[i])
+      fixed[i]=4;
   }
   // first do packed
   const double * rowlower = si.getRowLower();
   const double * rowupper = si.getRowUpper();
+  const double * rowElements = rowCopy->getElements();
   for (i=0;i<nRows;i++) {
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowupper[i]>1.001) suitable[i]=-1;
+      double upper=rowupper[i];
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
+	else if (fixed[icol]==4) upper -= collower[icol]*rowElements[k];
       }
+      if (upper>1.001) suitable[i]=-1;
       if (sum<0.9) suitable[i]=-1; //say no good
     }
   }
@@ -121,13 +127,19 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
-      if (rowlower[i]<0.999) sum=2.0;
-      if (rowupper[i]>1.001) doCover=true;
+      double lower=rowlower[i];
+      double upper=rowupper[i];
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
 	if (!fixed[icol]) sum += solution[icol];
 	if (fixed[icol]==1) sum=2.0; //don't use if any at 1
+	if (fixed[icol]==4) {
+	  lower -= collower[icol]*rowElements[k];
+	  upper -= collower[icol]*rowElements[k];
+	}
       }
+      if (lower<0.999) sum=2.0;
+      if (upper>1.001) doCover=true;
       if (sum>1.1) {
 	suitable[i]=-1; //say no good
       } else {
@@ -442,6 +454,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 	    int irow=mrow[k];
 	    for (j=rowStart[irow];j<rowStart[irow]+rowLength[irow];j++) {
 	      int icol=column[j];
+	      // skip if fixed and moved to right hand side
+	      if (fixedColumn[icol]==4) continue;
 	      if (!countcol[icol]) candidate[nincut++]=icol;
 	      countcol[icol]++;
 	    }
-- 
2.43.0


From 5821dfb62d03f251a715859f15e3316816085db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 06/71] fix: odd hole generator must use the limits set by the
 caller

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index fd9eb4f..bcc05a8 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -44,6 +44,9 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   // If it does then suitable rows are subset of information
   
   CglOddHole temp;
+  temp.minimumViolation_=minimumViolation_;
+  temp.minimumViolationPer_=minimumViolationPer_;
+  temp.maximumEntries_=maximumEntries_;
   int * checkRow = new int[nRows];
   int i;
   if (!suitableRows_) {
-- 
2.43.0


From 54cc6c771190dc1d992ecc3eeb734b126f8c5ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:40 +0000
Subject: [PATCH 07/71] fix: all-different generator must map its variables
 back to the right columns

---
 src/CglAllDifferent/CglAllDifferent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 6f4a8c7..46c92a8 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -464,8 +464,10 @@ originalWhich_(NULL)
     }
     numberDifferent_=0;
     for (i=0;i<maxValue;i++) {
-      if (!translate[i]) 
+      if (!translate[i]) {
+        originalWhich_[numberDifferent_]=i;
         translate[i]=numberDifferent_++;
+      }
     }
     // Now translate
     for (i=0;i<n;i++) {
-- 
2.43.0


From b37df5c704e154759956acda958e29bde50e7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:40 +0000
Subject: [PATCH 08/71] fix: all-different generator without sets must not use
 its missing data

---
 src/CglAllDifferent/CglAllDifferent.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 46c92a8..f80f345 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -30,6 +30,8 @@ namespace { int nPath = 0 ; }
 void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 			      const CglTreeInfo )
 {
+  if (numberSets_<=0)
+    return; // nothing to do
 #ifndef NDEBUG
   int nCols=si.getNumCols();
 #endif
@@ -436,6 +438,7 @@ CglAllDifferent::CglAllDifferent (int numberSets,
 :
 CglCutGenerator(),
 numberSets_(numberSets),
+numberDifferent_(0),
 maxLook_(2),
 logLevel_(0),
 start_(NULL),
-- 
2.43.0


From 433c617bcc657db43d1709835682f42f48893094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:40 +0000
Subject: [PATCH 09/71] fix: all-different generator must keep to its table
 when bounds are wide

---
 src/CglAllDifferent/CglAllDifferent.cpp | 26 +++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index f80f345..06212d4 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -83,19 +83,29 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   //int * which = new int [numberTotal];
   //int * start = new int [numberSets_+1];
   for (i=0;i<numberSets_;i++) {
+    int newOffset = offset;
+    int newMaxValue = maxValue;
     for (int j=start_[i];j<start_[i+1];j++) {
       int k=which_[j];
-      offset = std::min(offset,lo[k]);
-      maxValue = std::max(maxValue,up[k]);
+      newOffset = std::min(newOffset,lo[k]);
+      newMaxValue = std::max(newMaxValue,up[k]);
     }
-    numberLook++;
-    int gap = maxValue-offset+1;
-    double size = static_cast<double> (gap) * numberDifferent_;
+    double size = (static_cast<double> (newMaxValue) - newOffset + 1.0)
+      * numberDifferent_;
     if (size>1.0e7) {
       if (logLevel_)
         printf("Only looking at %d sets\n",numberLook);
       break;
     }
+    offset = newOffset;
+    maxValue = newMaxValue;
+    numberLook++;
+  }
+  if (maxValue<offset) {
+    // no sets to look at
+    delete [] lo;
+    delete [] up;
+    return;
   }
   // Which sets a variable is in
   int * back = new int [start_[numberSets_]];
@@ -132,13 +142,15 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   int * alreadyFixed = new int[numberDifferent_];
   for (i=0;i<numberDifferent_;i++) {
     alreadyFixed[i]=-1;
+    if (backStart[i]==backStart[i+1])
+      continue; // not in a set being looked at
     int startV = i*gap + lo[i] - offset;
     int n = up[i]-lo[i]+1;
     memset(possible+startV,1,n);
   }
   for (i=0;i<numberDifferent_;i++) {
     int n = up[i]-lo[i]+1;
-    if (n==1) {
+    if (n==1&&backStart[i]<backStart[i+1]) {
       int fixedAt = lo[i]-offset;
       numberFixed++;
       alreadyFixed[i]=fixedAt;
@@ -372,6 +384,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     CoinPackedVector ubs;
     int nTightened=0;
     for (i=0;i<numberDifferent_;i++) {
+      if (backStart[i]==backStart[i+1])
+        continue; // not in a set being looked at
       int iColumn = originalWhich_[i];
       char * allowed = possible+i*gap;
       int firstLo=-1;
-- 
2.43.0


From 9d866ed7d57c74e2cb1e28326ae2c16870a296dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:12 +0000
Subject: [PATCH 10/71] fix: odd hole generator must have room for every row on
 a path

---
 src/CglOddHole/CglOddHole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index bcc05a8..7e0ff48 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -184,7 +184,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 
   // we need only look at suitable rows and variables with unsatisfied 0-1
   // lookup from true row to compressed matrix
-  int * mrow = new int[nRows];
+  // (later the rows on a path, which may have up to two nodes per column)
+  int * mrow = new int[std::max(nRows,2*nCols)];
   // lookup from true column to compressed
   int * lookup = new int[nCols];
   // number of columns in compressed matrix
-- 
2.43.0


From b8356c934fb9a10b6c1398fc02e25565466c2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 11/71] fix: lift-and-project must look at the type of the
 column it works on

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index fccfb35..c0e18a0 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -244,7 +244,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const char * intVar = si.getColType();
 
   for (j=0;j<n;j++){
-    if (intVar[i]!=1) continue; // Better to ask coneSi? No! 
+    if (intVar[j]!=1) continue; // Better to ask coneSi? No! 
                                    // coneSi has no binInfo.
     equalObj1=eq(x[j],0);
     equalObj2=eq(x[j],1);
-- 
2.43.0


From 4a48d364d7e26cc9e9425524761262b10584a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 12/71] fix: lift-and-project must free its solver and warm
 starts

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c0e18a0..5fe921e 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -279,6 +279,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
       coneSi->initialSolve();
     }
     if(coneSi->isProvenOptimal()){
+      delete warmStart;
       warmStart = coneSi->getWarmStart();
       haveWarmStart=true;
       const double * wstar = coneSi->getColSolution();
@@ -314,7 +315,9 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   delete [] ustar;
   delete [] nVectorIndices;
   // BMatrix, BColLowers,BColUppers, BObjective, BRowLowers, BRowUppers
-  // are all freed by OsiSolverInterface destructor (?)
+  // are all freed by OsiSolverInterface destructor
+  delete coneSi;
+  delete warmStart;
   delete [] BLengths;
   delete [] BStarts;
   delete [] BIndices;
-- 
2.43.0


From fda9d63710db95dbfd0d4bbe4ce130e08c549895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 13/71] fix: lift-and-project must not look before its arrays
 when there are no rows

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 5fe921e..c59898f 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -136,7 +136,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
     k++;
   }
 
-  BStarts[twoM]=BStarts[twoM-1]+BLengths[twoM-1];
+  BStarts[twoM]= m ? BStarts[twoM-1]+BLengths[twoM-1] : 0;
 
   // Cols that will be deleted each iteration
   int BNumColsLessOne=BNumCols-1;
-- 
2.43.0


From 7ef528f62c086e840706e2b5374a891b50356979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:26 +0000
Subject: [PATCH 14/71] fix: assigning an odd hole generator without row list
 must not switch it off

---
 src/CglOddHole/CglOddHole.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 7e0ff48..16e6247 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -795,8 +795,12 @@ CglOddHole::operator=(
     delete [] suitableRows_;
     // copy list of suitable rows
     numberRows_=rhs.numberRows_;
-    suitableRows_=new int[numberRows_];
-    memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    if (numberRows_) {
+      suitableRows_=new int[numberRows_];
+      memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    } else {
+      suitableRows_=NULL;
+    }
     delete [] startClique_;
     delete [] member_;
     // copy list of cliques
-- 
2.43.0


From fce093f25662e9177a02ecafcc204c704e39e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:26 +0000
Subject: [PATCH 15/71] fix: odd hole generator must free the lists it replaces

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index 16e6247..db3aea1 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -678,6 +678,7 @@ void CglOddHole::createRowList( const OsiSolverInterface & si,
   /// This version passes in a list - 1 marks possible
 void CglOddHole::createRowList(int numberRows, const int * whichRow)
 {
+  delete [] suitableRows_;
   suitableRows_=new int [numberRows];
   numberRows_=numberRows;
   memcpy(suitableRows_,whichRow,numberRows*sizeof(int));
@@ -689,6 +690,8 @@ void CglOddHole::createCliqueList(int numberCliques, const int * cliqueStart,
 		     const int * cliqueMember)
 {
   numberCliques_=numberCliques;
+  delete [] startClique_;
+  delete [] member_;
   startClique_=new int[numberCliques_+1];
   memcpy(startClique_,cliqueStart,(numberCliques_+1)*sizeof(int));
   int length=startClique_[numberCliques_];
-- 
2.43.0


From ad3cbddf9d6e1de4eccd9b9eca3e6147adb0f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 16/71] fix: copies of a zero-half generator must carry over
 the model it was refreshed with

---
 src/CglZeroHalf/CglZeroHalf.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index c22c89f..878d3d5 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -193,6 +193,13 @@ CglZeroHalf::CglZeroHalf (
   cutInfo_.setSepGraphSparseThreshold(source.cutInfo_.getSepGraphSparseThreshold());
   cutInfo_.setRowMaxPairCount(source.cutInfo_.getRowMaxPairCount());
   cutInfo_.setRowMaxFractionalCount(source.cutInfo_.getRowMaxFractionalCount());
+  if (mnz_) {
+    // working data refers to our own arrays
+    cutInfo_.ilp_load(mr_,mc_,mnz_,mtbeg_,mtcnt_,mtind_,mtval_,
+	     vlb_,vub_,mrhs_,msense_);
+    cutInfo_.alloc_parity_ilp(mr_,mc_,mnz_);
+    cutInfo_.initialize_log_var();
+  }
 }
 
 
@@ -229,6 +236,9 @@ CglZeroHalf::operator=(
 {
   if (this != &rhs) {
     CglCutGenerator::operator=(rhs);
+    cutInfo_.free_log_var();
+    cutInfo_.free_parity_ilp();
+    cutInfo_.free_ilp();
     delete []  mtbeg_;
     delete []  mtcnt_;
     delete []  mtind_;
@@ -265,6 +275,13 @@ CglZeroHalf::operator=(
     cutInfo_.setSepGraphSparseThreshold(rhs.cutInfo_.getSepGraphSparseThreshold());
     cutInfo_.setRowMaxPairCount(rhs.cutInfo_.getRowMaxPairCount());
     cutInfo_.setRowMaxFractionalCount(rhs.cutInfo_.getRowMaxFractionalCount());
+    if (mnz_) {
+      // working data refers to our own arrays
+      cutInfo_.ilp_load(mr_,mc_,mnz_,mtbeg_,mtcnt_,mtind_,mtval_,
+	       vlb_,vub_,mrhs_,msense_);
+      cutInfo_.alloc_parity_ilp(mr_,mc_,mnz_);
+      cutInfo_.initialize_log_var();
+    }
   }
   return *this;
 }
-- 
2.43.0


From 80f859bf02ace431655cd04cb87b21e611dc0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:55 +0000
Subject: [PATCH 17/71] fix: zero-half generator refreshed with a model without
 rows must forget the old model

---
 src/CglZeroHalf/CglZeroHalf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index 878d3d5..055b405 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -288,7 +288,7 @@ CglZeroHalf::operator=(
 void 
 CglZeroHalf::refreshSolver(OsiSolverInterface * solver)
 {
-  if (!solver||!solver->getNumRows())
+  if (!solver)
     return; // no solver
   delete []  mtbeg_;
   delete []  mtcnt_;
@@ -312,6 +312,8 @@ CglZeroHalf::refreshSolver(OsiSolverInterface * solver)
   cutInfo_.free_log_var();
   cutInfo_.free_parity_ilp();
   cutInfo_.free_ilp();
+  if (!solver->getNumRows())
+    return; // nothing to work on
   CoinPackedMatrix rowCopy(*solver->getMatrixByRow());
   const int * column = rowCopy.getIndices();
   const CoinBigIndex * rowStart = rowCopy.getVectorStarts();
-- 
2.43.0


From 5670cb54d668fee11b389dc0a004720e47b255be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:48 +0000
Subject: [PATCH 18/71] fix: simple rounding must not round down a right-hand
 side that is integral up to round-off

---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 92687db..2ade501 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -130,7 +130,7 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     for (k=0; k<irow.getNumElements(); k++){
         cut.insert(irow.getIndices()[k],xInt[k]/gcd);
     }
-    double cutRhs = floor((b*pow(10.0,power))/gcd);
+    double cutRhs = floor((b*pow(10.0,power))/gcd + epsilon_);
 
     // un-negate the negated variables in the cut
     {
-- 
2.43.0


From 7eb40f4d5fc84f0496c5492398c377c8265ffd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:48 +0000
Subject: [PATCH 19/71] fix: simple rounding must not divide by an explicitly
 stored zero coefficient

---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 2ade501..cdc0616 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -281,7 +281,8 @@ CglSimpleRounding::deriveAnIntegerRow(
       }
       // else the variable is a free integer variable and it becomes
       // part of the integer inequality
-      else {
+      // (unless its coefficient is an explicitly stored zero)
+      else if (matrixRow.getElements()[i] != 0.0) {
         irow.insert(matrixRow.getIndices()[i],sign*matrixRow.getElements()[i]);
       }
     }
-- 
2.43.0


From cc9208c50b8e2dbe3f197327f9c860e88c3231c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:48 +0000
Subject: [PATCH 20/71] fix: simple rounding must skip a row whose scaled
 coefficients overflow

---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index cdc0616..57604ac 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -411,6 +411,16 @@ CglSimpleRounding::power10ToMakeDoubleAnInt(
     if (maxPower < power) maxPower=power;
   }
 
+  // every x[i] gets multiplied by 10**maxPower, so look for overflow again
+  for (i=0; i<size; i++){
+    if (fabs(x[i])*multiplier[maxPower]>2147483646.0) {
+#ifdef CGL_DEBUG
+      printf("Overflow %g => %g, power %d\n",x[i],fabs(x[i])*multiplier[maxPower],maxPower);
+#endif
+      return -1;
+    }
+  }
+
   return maxPower;
 }
 
-- 
2.43.0


From 3db026b5060413ac9dfdf1829d8adaab5b6860d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 21/71] fix: lift-and-project must not return cuts from points
 far along a ray of the cone

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c59898f..60bd82c 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -195,6 +195,10 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   // Problem sense should default to "min" by default, 
   // but just to be virtuous...
   coneSi->setObjSense(1.0);
+  // Many multipliers have zero cost and the cone is unbounded: with the
+  // primal algorithm the optimum is a vertex and not a point far along a ray
+  coneSi->setHintParam(OsiDoDualInInitial,false);
+  coneSi->setHintParam(OsiDoDualInResolve,false);
 
   // The plot outline from here on down:
   // coneSi has been assigned B without the u_0 and v_0 columns
-- 
2.43.0


From 49d156d44f02486acc9cde4a4e6ada754e07e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:49 +0000
Subject: [PATCH 22/71] fix: duplicate row generator must keep the equality row
 of identical rows

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index c74e8b0..cb88370 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2735,6 +2735,9 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	if (iValue<numberIntegers) 
 	  break;
 	if (cliqueType[kClique]=='E') {
+	  // an equality row has to stay rather than any <= row
+	  if (type=='S')
+	    iLowest = numberCliques;
 	  iLowest = std::min(iLowest,kClique);
 	  type='E';
 	} else if (type=='S') {
-- 
2.43.0


From a8011de6aa0cbf844c7a369de6586e50c3f1a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:25 +0000
Subject: [PATCH 23/71] fix: duplicate row generator must not compare a row
 with entries beyond the end of another

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index cb88370..6532e75 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2834,7 +2834,8 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	// what about different fixes bool odd=false;
 	for (j=cliqueStart[kClique];j<cliqueStart[kClique+1];j++) {
 	  int kColumn = entry[j];
-	  int iColumn = entry[j+offset];
+	  int iColumn = (j+offset<cliqueStart[iClique+1]) ?
+	    entry[j+offset] : numberIntegers;
 	  while (iColumn<kColumn) {
 	    offset++;
 	    if (j+offset<cliqueStart[iClique+1]) {
-- 
2.43.0


From bf19c4de7f403da0fb3c4464e860ffb12703781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:11 +0000
Subject: [PATCH 24/71] fix: clique enumeration must go back to where it
 branched

---
 src/CglClique/CglClique.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 3242850..6f262c7 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -586,8 +586,11 @@ CglClique::enumerate_maximal_cliques(int& pos, bool* label, OsiCuts& cs)
       labeled true once to true and once to false;
       otherwise check whether the clique found is maximal and violated */
    if (pos < cl_length) {
+      // the first call moves pos, so start the second one from here again
+      const int last = pos;
       found += enumerate_maximal_cliques(pos, label, cs);
-      label[pos-1] = false;
+      label[last-1] = false;
+      pos = last;
       found += enumerate_maximal_cliques(pos, label, cs);
    } else {
       /* check if the clique can be extended on cl_indices */
-- 
2.43.0


From f7772310374e38c71b58916b917e9fd75babfdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:13 +0000
Subject: [PATCH 25/71] fix: reading stored cuts must stop at the end of an
 incomplete file

---
 src/CglCommon/CglStored.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 432726a..a47229e 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -283,22 +283,14 @@ CglStored::CglStored(const char *fileName)
 {
   FILE *fp = fopen(fileName, "rb");
   if (fp) {
-#ifndef NDEBUG
-    size_t numberRead;
-#endif
     int maxInCut = 0;
     int *index = NULL;
     double *coefficient = NULL;
     double rhs[2];
     int n = 0;
     while (n >= 0) {
-#ifndef NDEBUG
-      numberRead = fread(&n, sizeof(int), 1, fp);
-      assert(numberRead == 1);
-#else
-      fread(&n, sizeof(int), 1, fp);
-#endif
-      if (n < 0)
+      // an incomplete file ends at its last complete cut
+      if (fread(&n, sizeof(int), 1, fp) != 1 || n < 0)
         break;
       if (n > maxInCut) {
         maxInCut = n;
@@ -307,14 +299,10 @@ CglStored::CglStored(const char *fileName)
         index = new int[maxInCut];
         coefficient = new double[maxInCut];
       }
-#ifndef NDEBUG
-      numberRead = fread(rhs, sizeof(double), 2, fp);
-      assert(numberRead == 2);
-#else
-      fread(rhs, sizeof(double), 2, fp);
-#endif
-      fread(index, sizeof(int), n, fp);
-      fread(coefficient, sizeof(double), n, fp);
+      if (fread(rhs, sizeof(double), 2, fp) != 2
+        || fread(index, sizeof(int), n, fp) != static_cast< size_t >(n)
+        || fread(coefficient, sizeof(double), n, fp) != static_cast< size_t >(n))
+        break;
       OsiRowCut rc;
       rc.setRow(n, index, coefficient, false);
       rc.setLb(rhs[0]);
-- 
2.43.0


From 4d3876bdba2676de1be172a7d4a7c785694d64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:13 +0000
Subject: [PATCH 26/71] fix: probing implications must not lose an entry that
 looks like the start marker

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 9e6b3cd..646fcfc 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1340,7 +1340,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_);
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
@@ -1363,7 +1363,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_);
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
-- 
2.43.0


From 931511936aabd1f3623e2612d1c908481e8449da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:26 +0000
Subject: [PATCH 27/71] fix: probing implications must not leak on assignment
 or on an infeasible return

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 646fcfc..185b812 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -200,8 +200,6 @@ CglTreeProbingInfo::operator=(const CglTreeProbingInfo &rhs)
         toZero_ = NULL;
         toOne_ = NULL;
       }
-      toZero_ = CoinCopyOfArray(rhs.toZero_, numberIntegers_ + 1);
-      toOne_ = CoinCopyOfArray(rhs.toOne_, numberIntegers_);
       integerVariable_ = CoinCopyOfArray(rhs.integerVariable_, numberIntegers_);
       backward_ = CoinCopyOfArray(rhs.backward_, numberVariables_);
     } else {
@@ -1680,6 +1678,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
@@ -1714,6 +1713,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
-- 
2.43.0


From 511b60e7e9e306e2dadd83e4eb6df27ecd0ca254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 28/71] fix: CglRedSplitParam::getMAXDYN must return MAXDYN

---
 src/CglRedSplit/CglRedSplitParam.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplitParam.hpp b/src/CglRedSplit/CglRedSplitParam.hpp
index 3cbb4bb..1bb073c 100644
--- a/src/CglRedSplit/CglRedSplitParam.hpp
+++ b/src/CglRedSplit/CglRedSplitParam.hpp
@@ -99,7 +99,7 @@ public:
   // coefficients in a cut. Default: 1e8.
   virtual void setMAXDYN(double value);
   /** Get the value of MAXDYN */
-  inline double getMAXDYN() const {return MAXDYN_LUB;}
+  inline double getMAXDYN() const {return MAXDYN;}
 
   // Set the maximum ratio between largest and smallest non zero 
   // coefficient in a cut involving structural variables with
-- 
2.43.0


From 4464f08ef3347dd1c18999c6c108b70ddf274735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 29/71] fix: CglRedSplit2Param::setMAX_SUPP_REL must set
 MAX_SUPP_REL

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 6 +++---
 src/CglRedSplit2/CglRedSplit2Param.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 82cedad..2ef51cb 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -72,11 +72,11 @@ void CglRedSplit2Param::setMINVIOL(double value)
 /***********************************************************************/
 void CglRedSplit2Param::setMAX_SUPP_REL(double value)
 {
-  if (value > 0.0 && value <= 0.1) {
-    MINVIOL = value;
+  if (value >= 0.0 && value <= 1.0) {
+    MAX_SUPP_REL = value;
   }
   else {
-    printf("### WARNING: CglRedSplit2Param::setMINVIOL(): value: %f ignored\n", 
+    printf("### WARNING: CglRedSplit2Param::setMAX_SUPP_REL(): value: %f ignored\n", 
 	   value);
   }
 } /* setMAX_SUPP_REL */
diff --git a/src/CglRedSplit2/CglRedSplit2Param.hpp b/src/CglRedSplit2/CglRedSplit2Param.hpp
index 6444951..92d7ecb 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.hpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.hpp
@@ -213,7 +213,7 @@ public:
 
   /** Maximum relative support of the cutting planes. Default: 0.0.
       The maximum support is MAX_SUPP_ABS + MAX_SUPPREL*ncols. */
-  inline void setMAX_SUPP_REL(double value); 
+  void setMAX_SUPP_REL(double value);
   inline double getMAX_SUPP_REL() const {return MAX_SUPP_REL;}
 
   /** Set the value of USE_INTSLACKS. Default: 0 */
-- 
2.43.0


From cfcc1bb6230285608e3711171f0e312dab4d9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 30/71] fix: CglRedSplit2Param must initialise its column
 scaling strategy

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 2ef51cb..fd140fc 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -380,6 +380,7 @@ CglRedSplit2Param::CglRedSplit2Param(bool use_default_strategies,
   maxSumMultipliers_(maxSumMultipliers),
   normalization_(normalization),
   away_(away),
+  columnScalingStrategyLAP_(SC_NONE),
   columnScalingBoundLAP_(columnScalingBoundLAP),
   timeLimit_(timeLimit),
   maxNumCuts_(maxNumCuts),
@@ -432,6 +433,7 @@ CglRedSplit2Param::CglRedSplit2Param(const CglParam &source,
   maxSumMultipliers_(maxSumMultipliers),
   normalization_(normalization),
   away_(away),
+  columnScalingStrategyLAP_(SC_NONE),
   columnScalingBoundLAP_(columnScalingBoundLAP),
   timeLimit_(timeLimit),
   maxNumCuts_(maxNumCuts),
-- 
2.43.0


From b84b1179d1e730212b41e95118a3007d99c8eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 31/71] fix: CglMixedIntegerRounding::getDoPreproc must return
 the value set

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp | 4 ++--
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index 81535da..928e238 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -1727,7 +1727,7 @@ void CglMixedIntegerRounding::setDoPreproc(int value)
   }  
 }
 
-bool CglMixedIntegerRounding::getDoPreproc() const
+int CglMixedIntegerRounding::getDoPreproc() const
 {
-  return (doPreproc_!=0);
+  return doPreproc_;
 }
diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp
index 0010b3e..6c540c1 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.hpp
@@ -204,7 +204,7 @@ public:
   /// Set doPreproc
   void setDoPreproc(int value);
   /// Get doPreproc
-  bool getDoPreproc() const;
+  int getDoPreproc() const;
 
   //@}
 
-- 
2.43.0


From 21552c1872171c4f060bf923875fee08943d23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 32/71] fix: CglRedSplit::generateCpp must write calls that
 compile

---
 src/CglRedSplit/CglRedSplit.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 9eb89d6..ca3ed2b 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1910,21 +1910,21 @@ CglRedSplit::generateCpp(FILE * fp)
   else
     fprintf(fp,"4  redSplit.setLUB(%g);\n",param.getLUB());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  redSplit.set.EPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  redSplit.setEPS(%g);\n",param.getEPS());
   else
     fprintf(fp,"4  redSplit.setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
     fprintf(fp,"3  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_COEFF_LUB()!=other.param.getEPS_COEFF_LUB())
-    fprintf(fp,"3  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"3  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"4  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   if (param.getNormIsZero()!=other.param.getNormIsZero())
     fprintf(fp,"3  redSplit.setNormIsZero(%g);\n",param.getNormIsZero());
   else
-- 
2.43.0


From 8473a65671d1bdc4f3bde5e4daf99c3184c97c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 33/71] fix: CglZeroHalf::generateCpp must write the flags

---
 src/CglZeroHalf/CglZeroHalf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index 055b405..242cde8 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -527,6 +527,10 @@ CglZeroHalf::generateCpp( FILE * fp)
     fprintf(fp,"3  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
   else
     fprintf(fp,"4  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
+  if (getFlags()!=other.getFlags())
+    fprintf(fp,"3  zeroHalf.setFlags(%d);\n",getFlags());
+  else
+    fprintf(fp,"4  zeroHalf.setFlags(%d);\n",getFlags());
   if (getSepGraphSparseThreshold()!=other.getSepGraphSparseThreshold())
     fprintf(fp,"3  zeroHalf.setSepGraphSparseThreshold(%d);\n",getSepGraphSparseThreshold());
   if (getRowMaxPairCount()!=other.getRowMaxPairCount())
-- 
2.43.0


From 3145213a38dca9717108d47a94da69a1fc536b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:20 +0000
Subject: [PATCH 34/71] fix: CglClique::generateCpp must write the maximum
 number of binaries

---
 src/CglClique/CglClique.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 6f262c7..ea0efe1 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -800,6 +800,10 @@ CglClique::generateCpp( FILE * fp)
     fprintf(fp,"3  clique.setMinViolation(%g);\n",petol);
   else
     fprintf(fp,"4  clique.setMinViolation(%g);\n",petol);
+  if (maxNumber_!=other.maxNumber_)
+    fprintf(fp,"3  clique.setMaxNumber(%d);\n",maxNumber_);
+  else
+    fprintf(fp,"4  clique.setMaxNumber(%d);\n",maxNumber_);
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  clique.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From c37c293fd8b5955d80270054260263cc517c92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:45 +0000
Subject: [PATCH 35/71] fix: odd hole generator must honour the minimum
 violation per entry of packing cuts

---
 src/CglOddHole/CglOddHole.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index db3aea1..2502e6b 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -529,6 +529,10 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 		// sort 
 		std::sort(sortit,sortit+nincut,double_double_int_triple_compare());
 		nincut = std::min(nincut,maximumEntries_);
+		// entries at zero do not help the violation
+		while (nincut&&!solution[sortit[nincut-1].sequence]&&
+		       static_cast<double> (nincut) * minimumViolationPer_>violation)
+		  nincut--;
 		sum=0.0;
 		for (k=0;k<nincut;k++) {
 		  int jcol=sortit[k].sequence;
@@ -538,7 +542,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 		}
 		violation = sum-rhs;
 		ii=nincut;
-		if (violation<minimumViolation_) {
+		if (violation<minimumViolation_||
+		    static_cast<double> (ii) * minimumViolationPer_>violation) {
 		  good=false;
 		}
 	      } else { 
-- 
2.43.0


From 1fbfe74d5898af47ff92a0d33b1dd3f5098ca935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:05 +0000
Subject: [PATCH 36/71] fix: zero-half separation must compute shortest paths
 with a proper heap

The heap of node pointers was never restored when a distance changed, so
that nodes were expanded out of order (and the number of expansions was
limited to the number of nodes): shortest odd cycles, and with them even
the plain odd cycle inequality, were missed.
---
 src/CglZeroHalf/CglZeroHalf.cpp | 44 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index 242cde8..47ae790 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -540,11 +540,9 @@ CglZeroHalf::generateCpp( FILE * fp)
   return "zeroHalf";
 }
 #include <vector>
-#include <algorithm>
-//bool operator() (cgl_node * x, cgl_node * y) {
-bool best(cgl_node * x, cgl_node * y) {
-  return (x->distanceBack>y->distanceBack);
-}
+#include <queue>
+#include <functional>
+#include <utility>
 #ifndef CGL_NEW_SHORT
 void cglShortestPath(cgl_graph * graph, int source, int maximumLength)
 #else
@@ -567,26 +565,23 @@ void cglShortestPath(auxiliary_graph * graph, int source, int maximumLength)
   }
   nodes[source].distanceBack=0;
 #ifdef HEAP
-  std::vector <cgl_node *> nodes_;
-  for ( i=0;i<numberNodes;i++) 
-    nodes_.push_back(nodes+i);
-  // create heap
-  std::make_heap(nodes_.begin(), nodes_.end(), best);
-#endif
+  // heap of (distance,node) - a node may be there more than once, the
+  // entry with its final distance comes first and the others are skipped
+  typedef std::pair<int,int> entry;
+  std::priority_queue<entry,std::vector<entry>,std::greater<entry> > heap;
+  heap.push(entry(0,source));
+  while (!heap.empty()) {
+    int iNode = heap.top().second;
+    int heapDistance = heap.top().first;
+    heap.pop();
+    // Prune: no useful odd cycle can have weight > maximumLength
+    if (heapDistance >= maximumLength)
+      break;
+    if (heapDistance > nodes[iNode].distanceBack)
+      continue;
+#else
   int numberCandidates = numberNodes;
   while (numberCandidates>0) {
-#ifdef HEAP
-  cgl_node * bestNode = nodes_.front();
-  int iNode = bestNode->index;
-  std::pop_heap(nodes_.begin(), nodes_.end(), best);
-  nodes_.pop_back();
-  if (nodes[iNode].distanceBack==COIN_INT_MAX)
-    break;
-  // Prune: no useful odd cycle can have weight > maximumLength
-  if (nodes[iNode].distanceBack >= maximumLength)
-    break;
-  numberCandidates--;
-#else
     int best=-1;
     int bestDistance=COIN_INT_MAX;
     for (i=0;i<numberCandidates;i++) {
@@ -611,8 +606,7 @@ void cglShortestPath(auxiliary_graph * graph, int source, int maximumLength)
 	nodes[toNode].distanceBack=thisDistance+dist;
 	nodes[toNode].parentNode=iNode;
 #ifdef HEAP
-	nodes_.push_back(nodes+toNode);
-	//printf("size %d\n",nodes_.size());
+	heap.push(entry(nodes[toNode].distanceBack,toNode));
 #endif
       }
     }
-- 
2.43.0


From 2a6860ecba6582dfb27091f9134205270470d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:03 +0000
Subject: [PATCH 37/71] fix: exact cover search of the knapsack generator must
 ask for weight above the right-hand side

exactSolveKnapsack enlarges the capacity by epsilon2_, more than the
epsilon_ taken off to make the inequality strict, so that a set of weight
exactly b was taken for a cover, rejected by the lifting, and every real
violated cover of the row was lost.
---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 3057639..de38928 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -1501,7 +1501,8 @@ CglKnapsackCover::findExactMostViolatedMinCover(
   }
   
   // vectors are indexed in ratioSortIndex order 
-  exactSolveKnapsack(krow.getNumElements(), (elementSum-b-epsilon_), p, w,
+  // (exactSolveKnapsack enlarges the capacity by epsilon2_)
+  exactSolveKnapsack(krow.getNumElements(), (elementSum-b-epsilon_-epsilon2_), p, w,
 		     exactOptVal, exactOptSol);
   
   if(objConst-exactOptVal < 1){
-- 
2.43.0


From e1d84b8ec3ee22399e41d97f4023a1b02390e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:03 +0000
Subject: [PATCH 38/71] fix: bound of the exact knapsack solver must not be
 rounded down as profits are fractional

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index de38928..38284f9 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3579,7 +3579,8 @@ CglKnapsackCover::exactSolveKnapsack(
     // r = ii at this point 
     wSemiSum -= w[ii];
     pSemiSum -= p[ii];
-    double u = pSemiSum + floor((chat - wSemiSum)*p[ii]/w[ii]);
+    // (profits are not integer, so the bound may not be rounded down)
+    double u = pSemiSum + (chat - wSemiSum)*p[ii]/w[ii];
     
     // "if (z >= zhat + u) goto 5: backtrack;"
     if (!(z >= zhat + u)) {
-- 
2.43.0


From 32fac971c9ad4a0f82b3ff7fd49f414546b23b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:44 +0000
Subject: [PATCH 39/71] fix: lifting of knapsack covers must allow for rounding
 at the steps of the lifting function

With weight 2/3 at the step 2/3 the coefficient was lifted to the value
beyond the step, and the cut removed feasible points.
---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 38284f9..5e4011c 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3237,7 +3237,7 @@ CglKnapsackCover::liftCoverCut(
         int found=0;
         i=2;
         while (!found && i<(cover.getNumElements()+1)){
-          if (remainder.getElements()[h] <= muMinusLambda[i]){
+          if (remainder.getElements()[h] <= muMinusLambda[i]+epsilon_){
 #ifdef CGL_DEBUG
 	    bool e = cut.isExistingIndex(remainder.getIndices()[h]);
             assert( !e );
@@ -3275,7 +3275,7 @@ CglKnapsackCover::liftCoverCut(
       int found=0; // Todo: searcing is inefficient: sort...
       i=0;
       while(!found && i<cover.getNumElements()){
-        if (remainder.getElements()[h] <= muMinusLambda[i+1]){
+        if (remainder.getElements()[h] <= muMinusLambda[i+1]+epsilon_){
 #ifdef CGL_DEBUG
 	  bool notE = !cut.isExistingIndex(remainder.getIndices()[h]);
           assert( notE );
-- 
2.43.0


From d79fba8cd7f5dbadbdde758e9345e730bb9d9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:20 +0000
Subject: [PATCH 40/71] fix: knapsack generator must not declare a row
 infeasible because of rounding

A right-hand side that is zero up to rounding after continuous variables
were replaced by their variable bounds gave the column cut for an
infeasible problem.
---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 5e4011c..386e408 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -1089,7 +1089,7 @@ CglKnapsackCover::deriveAKnapsack(
   // If the problem is infeasible, add an infeasible col cut to cut set
   // e.g. one that has lb > ub.
   // TODO: test this scenario in BCP
-  if (b < 0 ){ 
+  if (b < -epsilon_ ){ 
     OsiColCut cc;
     int index = krow.getIndices()[0]; 
     const double fakeLb = colupper[index] + 1.0;;  // yes, colupper.
-- 
2.43.0


From 02cca3a80d98a6db5e8bfa6dc47d4097bbed6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:26 +0000
Subject: [PATCH 41/71] fix: mixed-integer rounding must not take a submatrix
 of a model without rows

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index 928e238..ed38179 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -54,6 +54,9 @@ CglMixedIntegerRounding::generateCuts(const OsiSolverInterface& si,
     }
   }
 
+  if (numRows_ == 0)
+    return; // no rows to work with
+
   const double* xlp        = si.getColSolution();  // LP solution
   const double* colUpperBound = si.getColUpper();  // vector of upper bounds
   const double* colLowerBound = si.getColLower();  // vector of lower bounds
-- 
2.43.0


From 3cf5ee869169061f126c3973f35ad3bdaa766276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 42/71] fix: lift-and-project must free the row activities it
 computes

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 60bd82c..9b0fe3b 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -174,6 +174,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   CoinFillN(BObjective,BNumCols,0.0);
   Atilde->times(x,Atildex); // Atildex is size m, x is size n
   CoinDisjointCopyN(Atildex,m,BObjective); 
+  delete [] Atildex;
 
   // Number of cols and size of Elements vector
   // in B without the v_0 and u_0 cols
-- 
2.43.0


From c6ff03015f4e33d19e8cf20a90400515d59575c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 43/71] fix: residual capacity must not take a submatrix of a
 model without rows

---
 src/CglResidualCapacity/CglResidualCapacity.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglResidualCapacity/CglResidualCapacity.cpp b/src/CglResidualCapacity/CglResidualCapacity.cpp
index 2c22c19..f0ef0f7 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.cpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.cpp
@@ -54,6 +54,9 @@ CglResidualCapacity::generateCuts(const OsiSolverInterface& si,
 	}  
 
 
+  if (numRows_ == 0)
+    return; // no rows to work with
+
   const double* xlp        = si.getColSolution();  // LP solution
   const double* colUpperBound = si.getColUpper();  // vector of upper bounds
   const double* colLowerBound = si.getColLower();  // vector of lower bounds
-- 
2.43.0


From aa952c41878908b3c1b7d6de246ca9db9f79fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 44/71] fix: assignment of lift-and-project parameters must
 copy the degenerate pivot limit

---
 src/CglLandP/CglLandP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLandP/CglLandP.cpp b/src/CglLandP/CglLandP.cpp
index 17a6577..09ba4c8 100644
--- a/src/CglLandP/CglLandP.cpp
+++ b/src/CglLandP/CglLandP.cpp
@@ -109,7 +109,7 @@ CglLandP::Parameters & CglLandP::Parameters::operator=(const Parameters &other)
         pivotLimitInTree = other.pivotLimitInTree;
         maxCutPerRound = other.maxCutPerRound;
         failedPivotLimit = other.failedPivotLimit;
-        degeneratePivotLimit = other.failedPivotLimit;
+        degeneratePivotLimit = other.degeneratePivotLimit;
         extraCutsLimit = other.extraCutsLimit;
 	maximumCandidates = other.maximumCandidates;
 	maximumCutLength = other.maximumCutLength;
-- 
2.43.0


From fd46164c6c8c99a8d4c355f990516f9d1d48271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 45/71] fix: copying cached data of lift-and-project must
 respect what is owned

---
 src/CglLandP/CglLandP.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/CglLandP/CglLandP.cpp b/src/CglLandP/CglLandP.cpp
index 09ba4c8..da07b2a 100644
--- a/src/CglLandP/CglLandP.cpp
+++ b/src/CglLandP/CglLandP.cpp
@@ -167,7 +167,7 @@ CglLandP::CachedData::CachedData(const CachedData &source):
     if (nNonBasics_>0)
     {
         nonBasics_ = new int[nNonBasics_];
-        CoinCopyN(source.nonBasics_, nBasics_, nonBasics_);
+        CoinCopyN(source.nonBasics_, nNonBasics_, nonBasics_);
     }
     if (nBasics_ + nNonBasics_ > 0)
     {
@@ -191,12 +191,11 @@ CglLandP::CachedData& CglLandP::CachedData::operator=(const CachedData &source)
         basics_ = NULL;
         delete [] nonBasics_;
         nonBasics_ = NULL;
-        delete [] basis_;
+        delete basis_;
         basis_ = NULL;
         delete [] colsol_;
         colsol_ = NULL;
-        delete [] slacks_;
-        slacks_ = NULL;
+        slacks_ = NULL;//part of colsol_
         delete [] integers_;
         integers_ = NULL;
         if (nBasics_>0)
@@ -209,7 +208,7 @@ CglLandP::CachedData& CglLandP::CachedData::operator=(const CachedData &source)
         if (nNonBasics_>0)
         {
             nonBasics_ = new int[nNonBasics_];
-            CoinCopyN(source.nonBasics_, nBasics_, nonBasics_);
+            CoinCopyN(source.nonBasics_, nNonBasics_, nonBasics_);
         }
         if (nBasics_ + nNonBasics_ > 0)
         {
@@ -220,6 +219,7 @@ CglLandP::CachedData& CglLandP::CachedData::operator=(const CachedData &source)
         if (source.basis_!=NULL)
             basis_ = new CoinWarmStartBasis(*source.basis_);
         delete solver_;
+        solver_ = NULL;
 	if (source.solver_)
 	  solver_ = source.solver_->clone();
     }
-- 
2.43.0


From 399967fb332eb207403c6c0db443d1e6c7c6e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:15 +0000
Subject: [PATCH 46/71] fix: assigning lift-and-project must copy the base
 class and its own state

---
 src/CglLandP/CglLandP.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglLandP/CglLandP.cpp b/src/CglLandP/CglLandP.cpp
index da07b2a..9f3ce8f 100644
--- a/src/CglLandP/CglLandP.cpp
+++ b/src/CglLandP/CglLandP.cpp
@@ -477,9 +477,13 @@ CglLandP& CglLandP::operator=(const CglLandP &rhs)
 {
     if (this != &rhs)
     {
+        CglCutGenerator::operator=(rhs);
         params_ = rhs.params_;
         cached_ = rhs.cached_;
         validator_ = rhs.validator_;
+        numrows_ = rhs.numrows_;
+        canLift_ = rhs.canLift_;
+        handler_->setLogLevel(rhs.handler_->logLevel());
         extraCuts_ = rhs.extraCuts_;
     }
     return *this;
-- 
2.43.0


From d17b8acfa89b11ed9d9ec894c321e225c54f803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 47/71] fix: probing must size its list of columns looked at
 for the current model

---
 src/CglProbing/CglProbing.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 5e9b1b2..4861951 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -2241,9 +2241,9 @@ int CglProbing::gutsOfGenerateCuts(const OsiSolverInterface &si,
   const int *rowLength = rowCopy->getVectorLengths();
   const double *rowElements = rowCopy->getElements();
   // Arrays so user can find out what happened
-  if (!lookedAt_) {
-    lookedAt_ = new int[nCols];
-  }
+  // (model may be larger than last time)
+  delete[] lookedAt_;
+  lookedAt_ = new int[nCols];
   numberThisTime_ = 0;
   // Let us never add more than twice the number of rows worth of row cuts
   // Keep cuts out of cs until end so we can find duplicates quickly
-- 
2.43.0


From 30a0ada14120f3d1780a3c8c7689da75385ba8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:14 +0000
Subject: [PATCH 48/71] fix: a copy of mixed-integer rounding 2 needs the saved
 row types too

---
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index 16561b9..e1c840f 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -395,7 +395,7 @@ CglMixedIntegerRounding2::gutsOfCopy (const CglMixedIntegerRounding2& rhs)
 #define SAFE_ROWS
 #ifdef SAFE_ROWS
     rowTypes_ = new RowType [2*numRows_];
-    CoinDisjointCopyN(rhs.rowTypes_, numRows_, rowTypes_);
+    CoinDisjointCopyN(rhs.rowTypes_, 2*numRows_, rowTypes_);
 #else
     rowTypes_ = new RowType [numRows_];
 #endif
-- 
2.43.0


From 7ceeb1bf046038126fc9ec676ece764f98e20676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:44 +0000
Subject: [PATCH 49/71] fix: flow cover must not read a free row as an equation

---
 src/CglFlowCover/CglFlowCover.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglFlowCover/CglFlowCover.cpp b/src/CglFlowCover/CglFlowCover.cpp
index 57ff1e3..9f0f798 100644
--- a/src/CglFlowCover/CglFlowCover.cpp
+++ b/src/CglFlowCover/CglFlowCover.cpp
@@ -1305,6 +1305,8 @@ CglFlowCover::determineOneRowType(const OsiSolverInterface& si,
     return CGLFLOW_ROW_UNDEFINED;
   if (sense == 'R')
     return CGLFLOW_ROW_UNINTERSTED; // Could be fixed
+  if (sense == 'N')
+    return CGLFLOW_ROW_UNINTERSTED; // Free row says nothing
     
   CglFlowRowType rowType = CGLFLOW_ROW_UNDEFINED;
   // Get integer types
-- 
2.43.0


From 630bf9f504d7c9c6294320293294755bd7cbebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:44 +0000
Subject: [PATCH 50/71] fix: getDoPreproc must return the value that was set

---
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 4 ++--
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp | 2 +-
 src/CglResidualCapacity/CglResidualCapacity.cpp           | 4 ++--
 src/CglResidualCapacity/CglResidualCapacity.hpp           | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index e1c840f..5e514f3 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -1972,7 +1972,7 @@ void CglMixedIntegerRounding2::setDoPreproc(int value)
   }  
 }
 
-bool CglMixedIntegerRounding2::getDoPreproc() const
+int CglMixedIntegerRounding2::getDoPreproc() const
 {
-  return (doPreproc_!=0);
+  return doPreproc_;
 }
diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp
index 1e8e475..1615ddf 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.hpp
@@ -204,7 +204,7 @@ public:
   /// Set doPreproc
   void setDoPreproc(int value);
   /// Get doPreproc
-  bool getDoPreproc() const;
+  int getDoPreproc() const;
   //@}
 
 private:
diff --git a/src/CglResidualCapacity/CglResidualCapacity.cpp b/src/CglResidualCapacity/CglResidualCapacity.cpp
index f0ef0f7..2ae5d72 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.cpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.cpp
@@ -686,7 +686,7 @@ void CglResidualCapacity::setDoPreproc(int value)
     else
 	doPreproc_ = value;  
 }
-bool CglResidualCapacity::getDoPreproc() const
+int CglResidualCapacity::getDoPreproc() const
 {
-    return (doPreproc_ != 0);
+    return doPreproc_;
 }
diff --git a/src/CglResidualCapacity/CglResidualCapacity.hpp b/src/CglResidualCapacity/CglResidualCapacity.hpp
index d87d10a..2589a42 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.hpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.hpp
@@ -85,7 +85,7 @@ public:
     /// Set doPreproc
     void setDoPreproc(int value);
     /// Get doPreproc
-    bool getDoPreproc() const;
+    int getDoPreproc() const;
     //@}
 
     /**@name Generate Cuts */
-- 
2.43.0


From eb84a493f9e386af6b36d87fc2fbb5d46de2edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 51/71] fix: lift-and-project must not flag a row when no row
 leaves

---
 src/CglLandP/CglLandPSimplex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLandP/CglLandPSimplex.cpp b/src/CglLandP/CglLandPSimplex.cpp
index d97046c..00b4c18 100644
--- a/src/CglLandP/CglLandPSimplex.cpp
+++ b/src/CglLandP/CglLandPSimplex.cpp
@@ -772,9 +772,9 @@ CglLandPSimplex::optimize
                 if (!hasFlagedRow)
                     hasFlagedRow = true;
                 leaving = rescanReducedCosts(direction, gammaSign, params.pivotTol);
-                rowFlags_[leaving] = false;
                 if (leaving >= 0)
                 {
+                    rowFlags_[leaving] = false;
                     incoming = fastFindBestPivotColumn(direction, gammaSign,
                                                        params.pivotTol,
                                                        params.away,
-- 
2.43.0


From 9f0f45cbf4ff794bd38c605d8efd7983dda2003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:50 +0000
Subject: [PATCH 52/71] fix: a copy of probing must only read the columns that
 were looked at

---
 src/CglProbing/CglProbing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 4861951..7c8987f 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10374,7 +10374,7 @@ CglProbing::CglProbing(const CglProbing &rhs)
   numberThisTime_ = rhs.numberThisTime_;
   totalTimesCalled_ = rhs.totalTimesCalled_;
   if (numberColumns_)
-    lookedAt_ = CoinCopyOfArray(rhs.lookedAt_, numberColumns_);
+    lookedAt_ = CoinCopyOfArray(rhs.lookedAt_, numberThisTime_);
   else
     lookedAt_ = NULL;
   if (numberCliques_) {
@@ -10569,7 +10569,7 @@ CglProbing::operator=(
     numberThisTime_ = rhs.numberThisTime_;
     totalTimesCalled_ = rhs.totalTimesCalled_;
     if (numberColumns_)
-      lookedAt_ = CoinCopyOfArray(rhs.lookedAt_, numberColumns_);
+      lookedAt_ = CoinCopyOfArray(rhs.lookedAt_, numberThisTime_);
     else
       lookedAt_ = NULL;
     if (numberCliques_) {
-- 
2.43.0


From e032a138cf9e7fe484156b53689294ad5fe63f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 53/71] fix: BK clique must not overwrite the caller's limit on
 calls

---
 src/CglBKClique/CglBKClique.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglBKClique/CglBKClique.cpp b/src/CglBKClique/CglBKClique.cpp
index d987478..0611a55 100644
--- a/src/CglBKClique/CglBKClique.cpp
+++ b/src/CglBKClique/CglBKClique.cpp
@@ -308,7 +308,7 @@ CoinCliqueList *CglBKClique::separateCliques(const OsiSolverInterface &si)
     bk->setMinWeight(minWeight_);
     bk->findCliques();
     completeBK_ = bk->completedSearch();
-    maxCallsBK_ = bk->numCalls();
+    callsBK_ = bk->numCalls();
 
     if (bk->nCliques() > 0) {
       for (size_t i = 0; i < bk->nCliques(); i++) {
-- 
2.43.0


From 84254a050917e8e215a6746617317d7f0d951ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 54/71] fix: a copied odd wheel generator must keep its base
 settings

---
 src/CglOddWheel/CglOddWheel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglOddWheel/CglOddWheel.cpp b/src/CglOddWheel/CglOddWheel.cpp
index 7d3a1da..57af06a 100755
--- a/src/CglOddWheel/CglOddWheel.cpp
+++ b/src/CglOddWheel/CglOddWheel.cpp
@@ -43,7 +43,7 @@ CglOddWheel::CglOddWheel(size_t extMethod) : cap_(0), extMethod_(extMethod) {
     rc_ = NULL;
 }
 
-CglOddWheel::CglOddWheel(const CglOddWheel& rhs) {
+CglOddWheel::CglOddWheel(const CglOddWheel& rhs) : CglCutGenerator(rhs) {
     this->cap_ = rhs.cap_;
     this->extMethod_ = rhs.extMethod_;
 
-- 
2.43.0


From ef70fcf0af21c890f929ca659e50df888865925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 55/71] fix: clique strengthening of given rows must skip rows
 that are no cliques

---
 src/CglCliqueStrengthening/CglCliqueStrengthening.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp b/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
index e656d15..7519ec3 100644
--- a/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
+++ b/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
@@ -389,6 +389,8 @@ void CglCliqueStrengthening::cliqueExtension(size_t extMethod, CoinCliqueSet *ne
         break;
     }
     const size_t rowIdx = posInClqRows_[rows[i]];
+    if (rowIdx >= cliqueRows_->rows())
+      continue; // not a clique constraint
     const size_t clqOrigRowIdx = cliqueRows_->origIdxRow(rowIdx);
     const size_t *clqIdx = cliqueRows_->row(rowIdx);
     const size_t clqSize = cliqueRows_->nz(rowIdx);
-- 
2.43.0


From d5b37afa9782ede1984318db8db943858d958160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 56/71] fix: clique strengthening of a model without elements
 must not crash

---
 src/CglCliqueStrengthening/CglCliqueStrengthening.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp b/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
index 7519ec3..d0e4cd1 100644
--- a/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
+++ b/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
@@ -255,7 +255,7 @@ void CglCliqueStrengthening::strengthenCliques(size_t extMethod) {
   nExtended_ = nDominated_ = 0;
   startTime_ = CoinWallclockTime();
 
-  if (model_->getNumCols() == 0 || model_->getNumRows() == 0 || cliqueRows_->rows() == 0) {
+  if (model_->getNumCols() == 0 || model_->getNumRows() == 0 || cliqueRows_ == NULL || cliqueRows_->rows() == 0) {
     if (handler_->logLevel())
         handler_->message(CGL_PROCESS_CLQSTR, messages_) << nExtended_ << nDominated_ << CoinMessageEol;
     return;
@@ -281,7 +281,7 @@ void CglCliqueStrengthening::strengthenCliques(size_t n, const size_t rows[], si
   nExtended_ = nDominated_ = 0;
   startTime_ = CoinWallclockTime();
 
-  if (model_->getNumCols() == 0 || model_->getNumRows() == 0 || cliqueRows_->rows() == 0) {
+  if (model_->getNumCols() == 0 || model_->getNumRows() == 0 || cliqueRows_ == NULL || cliqueRows_->rows() == 0) {
     if (handler_->logLevel())
         handler_->message(CGL_PROCESS_CLQSTR, messages_) << nExtended_ << nDominated_ << CoinMessageEol;
     return;
-- 
2.43.0


From f9e25a00a5e1c2bf3b7c6556d8c36b6ffad48969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 57/71] fix: a row that forces a literal to zero must not be
 dropped as a clique

---
 src/CglCliqueStrengthening/CglCliqueStrengthening.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp b/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
index d0e4cd1..00920e4 100644
--- a/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
+++ b/src/CglCliqueStrengthening/CglCliqueStrengthening.cpp
@@ -174,6 +174,7 @@ void CglCliqueStrengthening::detectCliqueRows() {
     bool testRow = true;
     double minCoef1 = std::numeric_limits< double >::max();
     double minCoef2 = std::numeric_limits< double >::max();
+    double maxCoef = 0.0;
     for (size_t j = 0; j < nz; j++) {
       tmpRow[j] = idxs[j];
 
@@ -192,6 +193,7 @@ void CglCliqueStrengthening::detectCliqueRows() {
         rhs = rhs + coefCol;
       }
 
+      maxCoef = std::max(maxCoef, coefCol);
       if (coefCol + CLQ_STR_EPS <= minCoef1) {
         minCoef2 = minCoef1;
         minCoef1 = coefCol;
@@ -204,7 +206,8 @@ void CglCliqueStrengthening::detectCliqueRows() {
       continue;
     }
 
-    if (minCoef1 + minCoef2 >= rhs + CLQ_STR_EPS) {
+    // a row that also forces one of its literals to zero is stronger than a clique
+    if (minCoef1 + minCoef2 >= rhs + CLQ_STR_EPS && maxCoef <= rhs + CLQ_STR_EPS) {
       posInClqRows_[i] = cliqueRows_->rows();
       cliqueRows_->addRow(nz, tmpRow, i, NotDominated);
     }
-- 
2.43.0


From 09092e28a60956ab3199f9ab3fd9a1e543f313b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 58/71] fix: CglTreeProbingInfo::analyze with extra cliques
 wrote through null pointers and shifted their starts

---
 src/CglCommon/CglTreeInfo.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 185b812..b1de819 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -668,12 +668,14 @@ CglTreeProbingInfo::analyze(const OsiSolverInterface &si, int createSolver,
 #endif
     if (numberExtraCliques) {
       CoinBigIndex numberExtraEntries = starts[numberExtraCliques];
-      memcpy(entry + numberEntries, entries, numberExtraEntries * sizeof(CliqueEntry));
-      for (int iClique = 0; iClique < numberExtraCliques; iClique++) {
-        cliqueType[numberCliques] = type[iClique];
-        numberCliques++;
-        cliqueStart[numberCliques] = starts[iClique] + numberEntries;
+      if (iPass) {
+        memcpy(entry + numberEntries, entries, numberExtraEntries * sizeof(CliqueEntry));
+        for (int iClique = 0; iClique < numberExtraCliques; iClique++) {
+          cliqueType[numberCliques + iClique] = type[iClique];
+          cliqueStart[numberCliques + iClique + 1] = starts[iClique + 1] + numberEntries;
+        }
       }
+      numberCliques += numberExtraCliques;
       numberEntries += numberExtraEntries;
     }
     numberMatrixCliques = numberCliques;
-- 
2.43.0


From 81f6bf4e9bff68e212e4b04b935e9d65c33717b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:10 +0000
Subject: [PATCH 59/71] fix: CglTreeProbingInfo::analyze dropped cliques that
 are no subset of another one

---
 src/CglCommon/CglTreeInfo.cpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index b1de819..b38ff99 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -412,26 +412,16 @@ static int outDupsEtc(int numberIntegers, int &numberCliques, int &numberMatrixC
         // could be subset ?
         CoinBigIndex offset = cliqueStart[iClique] - position[kClique];
         CoinBigIndex j;
-        bool subset = true;
-        // what about different fixes bool odd=false;
-        for (j = cliqueStart[kClique] + 1; j < cliqueStart[kClique + 1]; j++) {
+        bool subset = entry[position[iClique]].fixes == entry[position[kClique]].fixes;
+        for (j = cliqueStart[kClique] + 1; subset && j < cliqueStart[kClique + 1]; j++) {
           int kColumn = sequenceInCliqueEntry(entry[j]);
-          int iColumn = sequenceInCliqueEntry(entry[j + offset]);
-          if (iColumn > kColumn) {
+          while (j + offset < cliqueStart[iClique + 1] && static_cast< int >(sequenceInCliqueEntry(entry[j + offset])) < kColumn)
+            offset++;
+          // must be there and fixed the same way
+          if (j + offset >= cliqueStart[iClique + 1] || entry[j + offset].fixes != entry[j].fixes) {
             subset = false;
-          } else {
-            while (iColumn < kColumn) {
-              offset++;
-              if (j + offset < cliqueStart[iClique + 1]) {
-                iColumn = sequenceInCliqueEntry(entry[j + offset]);
-              } else {
-                subset = false;
-                break;
-              }
-            }
-          }
-          if (!subset)
             break;
+          }
         }
         if (subset) {
           value[kClique] = -2;
-- 
2.43.0


From 9e063661eaa0c8676b93695b4e4cba17d5c24aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:25 +0000
Subject: [PATCH 60/71] fix: CglTreeProbingInfo::analyze took cliques with the
 same columns fixed differently as duplicates

---
 src/CglCommon/CglTreeInfo.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index b38ff99..16c6fa9 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -336,23 +336,26 @@ static int outDupsEtc(int numberIntegers, int &numberCliques, int &numberMatrixC
       }
       CoinSort_2(sort + jFirst, sort + jLast, which + jFirst);
       // if duplicate mark and move on
-      int iLowest = numberCliques;
       for (jClique = jFirst; jClique < jLast; jClique++) {
         int kClique = which[jClique];
         int iValue = value[kClique];
         if (iValue < numberIntegers)
           break;
-        iLowest = std::min(iLowest, kClique);
       }
       if (jClique > jFirst) {
-        // mark all apart from lowest number as duplicate and move on
+        // same columns - mark all apart from lowest number with same fixes as duplicate and move on
         lastDone = jClique - 1;
         for (jClique = jFirst; jClique <= lastDone; jClique++) {
           int kClique = which[jClique];
-          if (kClique != iLowest) {
-            value[kClique] = -2;
-            nDup++;
-            nSave += cliqueStart[kClique + 1] - cliqueStart[kClique];
+          CoinBigIndex n = cliqueStart[kClique + 1] - cliqueStart[kClique];
+          for (int iiClique = jFirst; iiClique <= lastDone; iiClique++) {
+            int iClique = which[iiClique];
+            if (iClique < kClique && !memcmp(entry + cliqueStart[iClique], entry + cliqueStart[kClique], n * sizeof(CliqueEntry))) {
+              value[kClique] = -2;
+              nDup++;
+              nSave += n;
+              break;
+            }
           }
         }
       }
-- 
2.43.0


From 5beee53fa77b87625ce1913088e99248c96690a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:42 +0000
Subject: [PATCH 61/71] fix: snapshot must not leave its work arrays to later
 probing calls

---
 src/CglProbing/CglProbing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 7c8987f..04b21b7 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10013,6 +10013,12 @@ int CglProbing::snapshot(const OsiSolverInterface &si,
     rowLower_, rowUpper_,
     numberRows_, numberColumns_, intVar, 5, primalTolerance_);
   delete[] rowStartPos;
+  // tighten leaves work arrays - they must not be taken for current ones later
+  delete[] markRow_;
+  delete[] lookColumn_;
+  markRow_ = NULL;
+  markColumn_ = NULL;
+  lookColumn_ = NULL;
   if (ninfeas) {
     // let someone else find out
     returnCode = 1;
-- 
2.43.0


From 711ab37ae65bdfee90c9440339a5cef208c2a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 62/71] fix: the objective row of a snapshot must not have
 undefined bounds

---
 src/CglProbing/CglProbing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 04b21b7..20b3e82 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10075,6 +10075,9 @@ int CglProbing::snapshot(const OsiSolverInterface &si,
     rowCopy_->appendRow(n, columns, elements);
     delete[] columns;
     delete[] elements;
+    // free until there is a cutoff
+    rowLower_[numberRows_] = -COIN_DBL_MAX;
+    rowUpper_[numberRows_] = COIN_DBL_MAX;
     numberRows_++;
   }
   // create column copy
-- 
2.43.0


From 76bf12e6128c4a87df04698a057c703ab82de89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 63/71] fix: a tightened row must replace the row it came from,
 not the one at its place among the rows looked at

---
 src/CglProbing/CglProbing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 20b3e82..b559a46 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -6962,7 +6962,9 @@ int CglProbing::probe(const OsiSolverInterface &si,
                     printf("<= %g\n", rowUpper[irow]);
                   }
 #endif
-                  int returnCode = rowCut.addCutIfNotDuplicate(rc, i);
+                  // i may be a row of the reduced copy (or the objective)
+                  int realRow = realRows ? realRows[i] : (i < si.getNumRows() ? i : -1);
+                  int returnCode = rowCut.addCutIfNotDuplicate(rc, realRow);
                   if (returnCode < 0)
                     break; // out of space
                 }
-- 
2.43.0


From ca9cd09018a4d92fb7c691fea5694899dc4571fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 64/71] fix: a row is a clique only with a bound that makes it
 one, after fixings too

---
 src/CglProbing/CglProbing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index b559a46..af81d54 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10855,7 +10855,8 @@ int CglProbing::createCliques(OsiSolverInterface &si,
           state = 1;
       }
       if (!state && lowerValue > -1.0e6) {
-        state = -1;
+        if (-iLower == 1 - numberP1)
+          state = -1;
       }
       if (abs(state) != 1)
         continue; // must have been fixed
@@ -10950,6 +10951,8 @@ int CglProbing::createCliques(OsiSolverInterface &si,
         }
       }
     }
+    if (!numberCliques_)
+      deleteCliques(); // all have been fixed
   }
   delete[] which;
   delete[] whichRow;
-- 
2.43.0


From 2dbe2c63593851247c2fa0469436005a09224d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 65/71] fix: tightening while probing must not forget the
 number of rows of the snapshot

---
 src/CglProbing/CglProbing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index af81d54..7f5598a 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -5386,11 +5386,13 @@ int CglProbing::probe(const OsiSolverInterface &si,
           memcpy(saveFRowUpper, rUpper, nRows * sizeof(double));
           // move stackR
           memcpy(lookRow_[0], stackR, nstackR * sizeof(int));
+          int saveNumberRows = numberRows_; // tighten will set it to zero
           numberRows_ = nstackR;
           int returnCode = tighten(colLower, colUpper,
             column, rowElements, rowStart,
             rowStartPos, rowLength, columnCopy, rLower, rUpper,
             nRows, nCols, intVar, 10, primalTolerance_);
+          numberRows_ = saveNumberRows;
           if (returnCode) {
             // printf("INFEAS for j %d and way %d\n",j,iway);
             notFeasible = 1;
@@ -12847,11 +12849,13 @@ int CglProbing::probeFast(const OsiSolverInterface &si,
           memcpy(saveFRowUpper, rUpper, nRows * sizeof(double));
           // move stackR
           memcpy(lookRow_[0], stackR, nstackR * sizeof(int));
+          int saveNumberRows = numberRows_; // tighten will set it to zero
           numberRows_ = nstackR;
           int returnCode = tighten(colLower, colUpper,
             column, rowElements, rowStart,
             rowStartPos, rowLength, columnCopy, rLower, rUpper,
             nRows, nCols, intVar, 10, primalTolerance_);
+          numberRows_ = saveNumberRows;
           if (returnCode) {
             // printf("INFEAS for j %d and way %d\n",j,iway);
             notFeasible = 1;
-- 
2.43.0


From 5910ec8d8ff5c4bc9c5314d532afbc9504eae869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 66/71] fix: the 0-1 flag of a disaggregation must be read

---
 src/CglProbing/CglProbing.hpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/CglProbing/CglProbing.hpp b/src/CglProbing/CglProbing.hpp
index c8cb8b4..0e6d962 100644
--- a/src/CglProbing/CglProbing.hpp
+++ b/src/CglProbing/CglProbing.hpp
@@ -518,19 +518,10 @@ inline void setAffectedInDisaggregation(disaggregationAction &dis,
 {
   dis.affected = affected | (dis.affected & 0xe0000000);
 }
-#ifdef NDEBUG
-inline bool zeroOneInDisaggregation(const disaggregationAction &)
-{
-  return true;
-}
-#else
 inline bool zeroOneInDisaggregation(const disaggregationAction &dis)
-//{ return (dis.affected&0x80000000)!=0;}
 {
-  assert((dis.affected & 0x80000000) != 0);
-  return true;
+  return (dis.affected & 0x80000000) != 0;
 }
-#endif
 inline void setZeroOneInDisaggregation(disaggregationAction &dis, bool zeroOne)
 {
   dis.affected = (zeroOne ? 0x80000000 : 0) | (dis.affected & 0x7fffffff);
-- 
2.43.0


From 8be5904b899acbc159bcb1479899e548e666aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:03 +0000
Subject: [PATCH 67/71] fix: the first row looked at must be mapped to its real
 row too

---
 src/CglProbing/CglProbing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 7f5598a..3ddd532 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -8150,7 +8150,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowLower[irow] < -1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
@@ -8230,7 +8230,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowUpper[irow] > 1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
@@ -8518,7 +8518,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowLower[irow] < -1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
@@ -8598,7 +8598,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowUpper[irow] > 1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
-- 
2.43.0


From 23c304fa888a834c45c9ccb244864d68a98fd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 68/71] fix: probing with cliques must not replace a row by a
 weaker one

---
 src/CglProbing/CglProbing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 3ddd532..572a6e8 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -7283,6 +7283,8 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
           // switch off disaggregation if not wanted
           if ((rowCuts & 1) == 0)
             goingToTrueBound = 0;
+          // a cut from other probes than of a 0-1 column may be weaker than its row
+          bool canReplace = info->strengthenRow && (goingToTrueBound == 2);
 #ifdef PRINT_DEBUG
           if (fabs(movement) > 1.01) {
             printf("big %d %g %g %g\n", j, colLower[j], solval, colUpper[j]);
@@ -8149,7 +8151,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                           printf("<= %g\n", rowUpper[irow]);
                         }
 #endif
-                        int realRow = (rowLower[irow] < -1.0e20) ? irow : -1;
+                        int realRow = (canReplace && rowLower[irow] < -1.0e20) ? irow : -1;
                         if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
@@ -8229,7 +8231,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                           printf("<= %g\n", rowUpper[irow]);
                         }
 #endif
-                        int realRow = (rowUpper[irow] > 1.0e20) ? irow : -1;
+                        int realRow = (canReplace && rowUpper[irow] > 1.0e20) ? irow : -1;
                         if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
@@ -8517,7 +8519,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                           printf("<= %g\n", rowUpper[irow]);
                         }
 #endif
-                        int realRow = (rowLower[irow] < -1.0e20) ? irow : -1;
+                        int realRow = (canReplace && rowLower[irow] < -1.0e20) ? irow : -1;
                         if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
@@ -8597,7 +8599,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                           printf("<= %g\n", rowUpper[irow]);
                         }
 #endif
-                        int realRow = (rowUpper[irow] > 1.0e20) ? irow : -1;
+                        int realRow = (canReplace && rowUpper[irow] > 1.0e20) ? irow : -1;
                         if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
-- 
2.43.0


From 45e9ab8dc52cdeecc53324cc98ceb1986c24b60e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 69/71] fix: preprocessing moved costs with the wrong sign of
 the objective offset

---
 src/CglPreProcess/CglPreProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglPreProcess/CglPreProcess.cpp b/src/CglPreProcess/CglPreProcess.cpp
index bed8d5b..d296a87 100644
--- a/src/CglPreProcess/CglPreProcess.cpp
+++ b/src/CglPreProcess/CglPreProcess.cpp
@@ -2885,7 +2885,8 @@ CglPreProcess::preProcessNonDefault(OsiSolverInterface &model,
       }
       if (smallestPos > 0.0) {
         double move = 0.0;
-        double multiply = (smallestNeg == -COIN_DBL_MAX) ? -1.0 : 1.0;
+        // sign of rhs when other columns given in terms of jColumn
+        double multiply = (nPlus == 1) ? 1.0 : -1.0;
         if (smallestNeg == -COIN_DBL_MAX)
           move = smallestPos;
         else if (smallestPos == COIN_DBL_MAX)
-- 
2.43.0


From e63e89ae83fa9301c53ec465e93f4d4f71fdc6d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 70/71] fix: preprocessing made columns integer that need not
 be integral

---
 src/CglPreProcess/CglPreProcess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglPreProcess/CglPreProcess.cpp b/src/CglPreProcess/CglPreProcess.cpp
index d296a87..9828162 100644
--- a/src/CglPreProcess/CglPreProcess.cpp
+++ b/src/CglPreProcess/CglPreProcess.cpp
@@ -3582,7 +3582,8 @@ CglPreProcess::preProcessNonDefault(OsiSolverInterface &model,
                 } else {
                   // may be able to make integer
                   // may just be better to use to see objective integral
-                  if (upper == floor(upper) && value2 == floor(value2) && value1 == floor(value1) && objective[iColumn1] == floor(objective[iColumn1]))
+                  if (fabs(upper) < 1.0e20 && upper == floor(upper) && value2 == floor(value2) && value1 == 1.0
+                    && columnUpper[iColumn1] == floor(columnUpper[iColumn1]) && objective[iColumn1] == floor(objective[iColumn1]))
                     oldModel->setInteger(iColumn1);
                   //printf("odd3\n");
                 }
-- 
2.43.0


From 45adf38a937cab9df6bb93e45c86a4a7c0208288 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 71/71] fix: preprocessing dropped the stronger of two rows

---
 src/CglPreProcess/CglPreProcess.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglPreProcess/CglPreProcess.cpp b/src/CglPreProcess/CglPreProcess.cpp
index 9828162..385a0a1 100644
--- a/src/CglPreProcess/CglPreProcess.cpp
+++ b/src/CglPreProcess/CglPreProcess.cpp
@@ -6999,8 +6999,8 @@ CglPreProcess::modified(OsiSolverInterface *model,
                     if (state0 && state1) {
                       if (state0 == 5) {
                         if (state1 == 5) {
-                          // same
-                          if (abs(rowType[k1]) == 1)
+                          // same (if so the other way round) - or second weaker
+                          if (abs(rowType[k1]) == 1 && result[k2][k1] == result[k1][k2])
                             dropped = k1;
                           else
                             dropped = k2;
-- 
2.43.0

