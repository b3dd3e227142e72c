From eab0b8d97350191c072c9d17556b35b573ebb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 01/49] fix: SelectModel writes the root model into the
 caller's parameters

---
 featselect/optimize.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..2acce14 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -81,15 +81,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		panic("SelectModel: The number of features has to be larger or equal to 3.")
 	}
 
-	if params.RootModel == nil {
-		params.RootModel = make([]bool, ncols)
+	rootModel := params.RootModel
+	if rootModel == nil {
+		rootModel = make([]bool, ncols)
 	} else {
-		if len(params.RootModel) != ncols {
+		if len(rootModel) != ncols {
 			panic("SelectModel: Inconsistent length of rootModel.")
 		}
 	}
 
-	rootNode := NewNode(0, params.RootModel)
+	rootNode := NewNode(0, rootModel)
 
 	log2Pruned := 0.0
 	numChecked := 0
-- 
2.43.0


From 3a1730cf58058b3d4769285eb40d1c94f425143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 02/49] fix: SelectModel never scores the root model

---
 featselect/optimize.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 2acce14..4179b4d 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -71,7 +71,7 @@ func NewSelectModelOptParams() *SelectModelOptParams {
 func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProgress, params *SelectModelOptParams) {
 	queue := list.New()
 
-	_, ncols := X.Dims()
+	nrows, ncols := X.Dims()
 
 	if params == nil {
 		params = NewSelectModelOptParams()
@@ -102,6 +102,16 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	pruneCh := make(chan int)
 	currentBestScore := -1e100
 
+	// The root node is never passed to the score workers, so it is scored here
+	if k := NumFeatures(rootNode.Model); k > 0 && k < nrows {
+		design := GetDesignMatrix(rootNode.Model, X)
+		rootNode.Coeff = Fit(design, y)
+		rootNode.Score = -Aicc(k, nrows, Rss(design, rootNode.Coeff, y))
+		highscore.Insert(rootNode)
+		numChecked++
+		currentBestScore = highscore.BestScore()
+	}
+
 	numScoreWorkers := 8
 	for i := 0; i < numScoreWorkers; i++ {
 		go ScoreWorker(node, score, X, y)
-- 
2.43.0


From e8397fe2ca4a29621a09da4329a888bd938b6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 03/49] fix: data race between searching and reading the
 highscore list

---
 featselect/highscore.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..d76524c 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,14 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
 // Highscore is a structure that holds a list of Nodes sorted by their score
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
@@ -21,7 +23,9 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	h.rwlock.Lock()
+	defer h.rwlock.Unlock()
+	if h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
@@ -43,18 +47,22 @@ func (h *Highscore) Insert(node *Node) {
 		}
 	}
 
-	if !itemInserted && h.Len() < h.MaxItems {
+	if !itemInserted && h.Items.Len() < h.MaxItems {
 		h.Items.PushBack(node)
 	}
 }
 
 // Len returns the number of items in the highscore list
 func (h *Highscore) Len() int {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	return h.Items.Len()
 }
 
 // BestScore returns the best score
 func (h *Highscore) BestScore() float64 {
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	front := h.Items.Front()
 
 	if front == nil {
@@ -65,7 +73,9 @@ func (h *Highscore) BestScore() float64 {
 
 // Scores returns all the scores in the highscore list
 func (h *Highscore) Scores() []float64 {
-	scores := make([]float64, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	scores := make([]float64, h.Items.Len())
 	i := 0
 	for item := h.Items.Front(); item != nil; item = item.Next() {
 		scores[i] = item.Value.(*Node).Score
@@ -76,7 +86,9 @@ func (h *Highscore) Scores() []float64 {
 
 // MarshalJSON creates a JSON representation of the highscore list
 func (h *Highscore) MarshalJSON() ([]byte, error) {
-	data := make([]*Node, h.Len())
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
+	data := make([]*Node, h.Items.Len())
 	counter := 0
 	for e := h.Items.Front(); e != nil; e = e.Next() {
 		data[counter] = e.Value.(*Node)
-- 
2.43.0


From eba4e0b2ddd43eacdd063b86b24b217af4ab4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 04/49] fix: a subtree can be pruned against the placeholder
 score of an empty highscore list

---
 featselect/optimize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 4179b4d..5873573 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -260,7 +260,8 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	// Check the length first: the list may get its first entry in between
+	if h.Len() > 0 && child.Lower > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From eda2c1b89ba5aa584f1264aec3ffdfce5a8a6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 05/49] fix: SelectModel ignores the cutoff

---
 featselect/optimize.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 5873573..1093b7c 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -138,7 +138,7 @@ exploreLoop:
 
 				if highscore.BestScore() > currentBestScore {
 					currentBestScore = highscore.BestScore()
-					CleanQueue(queue, -currentBestScore)
+					CleanQueue(queue, -currentBestScore-params.Cutoff)
 				}
 			}
 
@@ -261,7 +261,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 	}
 
 	// Check the length first: the list may get its first entry in between
-	if h.Len() > 0 && child.Lower > -h.BestScore() {
+	if h.Len() > 0 && child.Lower+cutoff > -h.BestScore() {
 		return nil
 	}
 	return child
-- 
2.43.0


From bc32c5c45bb1ec35aa3183aa86097155e7c3b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 06/49] fix: subtrees of a root model with more features than
 data points are discarded

---
 featselect/optimize.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 1093b7c..4d0b830 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -231,7 +231,7 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 	for n := range nodeCh {
 		numFeat := NumFeatures(n.Model)
 
-		if numFeat > 0 && isNewNode(n) {
+		if numFeat > 0 && numFeat < nrows && isNewNode(n) {
 			design := GetDesignMatrix(n.Model, X)
 			n.Coeff = Fit(design, y)
 			rss := Rss(design, n.Coeff, y)
@@ -247,10 +247,11 @@ func ScoreWorker(nodeCh <-chan *Node, scoreCh chan<- *Node, X mat.Matrix, y []fl
 // is lower than the current best score
 func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float64, h *Highscore) *Node {
 	child := node.GetChildNode(flip)
-	n := NumFeatures(child.Model)
+	// All models in the subtree have at least as many features as the LCS
+	n := NumFeatures(Lcs(child.Model, child.Level))
 	nrows, _ := X.Dims()
 	if n < nrows {
-		if n > 0 {
+		if n > 0 || NumFeatures(child.Model) > 0 {
 			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
 		} else {
 			child.Lower = -1e100
-- 
2.43.0


From 38fa5502325b83356ad06af4cfa9517e5d6fba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 07/49] fix: models that were not scored end up in the
 highscore list

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 4d0b830..7429bbe 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -132,7 +132,7 @@ exploreLoop:
 			numInProgress--
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
-			if isNewNode(ns) {
+			if isNewNode(ns) && ns.Score > -math.MaxFloat64 {
 				highscore.Insert(ns)
 				numChecked++
 
-- 
2.43.0


From 16d2b5242ab87781154c9b406f143344b4721b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 08/49] fix: worker goroutines are never released

---
 featselect/cohens_kappa.go | 2 ++
 featselect/lassoCrdDesc.go | 2 ++
 featselect/optimize.go     | 2 ++
 featselect/thresholdCov.go | 4 +++-
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 604498c..2031c79 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -109,6 +109,8 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 		}
 	}
 
+	close(workChannel)
+
 	srt := Argsort(allKappas)
 	fmt.Printf("-------------------------------------------------------------------\n")
 	fmt.Printf("                    COHEN'S KAPPA SUMMARY                          \n")
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..1fd04d8 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -245,6 +245,8 @@ func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter
 		}
 	}
 
+	close(workChan)
+
 	firstModelWithFeatures := 0
 	for i := range nodes {
 		if len(nodes[i].Selection) > 0 {
diff --git a/featselect/optimize.go b/featselect/optimize.go
index 7429bbe..2e2d12a 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -175,6 +175,8 @@ exploreLoop:
 			wantChildNode <- node
 		}
 	}
+	// The last parent has been processed, release its worker
+	<-childReady
 	close(node)
 	close(wantChildNode)
 	close(pruneCh)
diff --git a/featselect/thresholdCov.go b/featselect/thresholdCov.go
index dfb8288..819e5b5 100644
--- a/featselect/thresholdCov.go
+++ b/featselect/thresholdCov.go
@@ -109,7 +109,7 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 				work.gr = 0
 				gridPt = 1
 			}
-			if gridPt <= numGrid {
+			if gridPt <= numGrid && numReceives < numSamples*numGrid {
 				workChannel <- work
 			}
 		case <-ticker:
@@ -117,6 +117,8 @@ func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step
 		}
 	}
 
+	close(workChannel)
+
 	minIdx := Argmin(meanNormDiff)
 	var op ThresholdOperator
 	op.threshold = getThreshold(minIdx, step)
-- 
2.43.0


From 64874b7b4dde102588f7f404742848b2940ceca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 09/49] fix: Insert panics on a highscore list with room for
 one item

---
 featselect/highscore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index d76524c..d8b520a 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -27,7 +27,7 @@ func (h *Highscore) Insert(node *Node) {
 	defer h.rwlock.Unlock()
 	if h.Items.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
-		if last.Value.(*Node).Score > node.Score {
+		if last != nil && last.Value.(*Node).Score > node.Score {
 			return
 		}
 	}
-- 
2.43.0


From 481f2bfca00f383041eb53abf8e7535c7c0ef56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 10/49] fix: reading a highscore list from JSON panics or loses
 items

---
 featselect/highscore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index d8b520a..4cae41b 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -113,10 +113,12 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	h.Items = list.New()
 	h.MaxItems = aux.MaxItems
 
+	// The items were written in sorted order
 	for _, n := range aux.Items {
-		h.Insert(n)
+		h.Items.PushBack(n)
 	}
 	return nil
 }
-- 
2.43.0


From a05bf8c1f4261187075a6e94c847101c60c03f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 11/49] fix: SAScore pairs a replaced selection with the
 coefficients of the old one

---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From 318985db78ecf003ada486bafe00859ac7f7f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:24 +0000
Subject: [PATCH 12/49] fix: SelectModelSA never terminates with fewer than
 four data points

---
 featselect/simmulatedAnnealing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/simmulatedAnnealing.go b/featselect/simmulatedAnnealing.go
index 9e8b01d..41d17f6 100644
--- a/featselect/simmulatedAnnealing.go
+++ b/featselect/simmulatedAnnealing.go
@@ -38,7 +38,7 @@ func SelectModelSA(X mat.Matrix, y []float64, nSweeps int, cost crit) *SARes {
 		if N == 0 {
 			current[index] = !current[index]
 			N = 1
-		} else if N >= nr/2 {
+		} else if N >= nr/2 && N > 1 {
 			current[index] = !current[index]
 			continue
 		}
-- 
2.43.0


From aa5136e059c2eadb9cd148dc023ce78b3f59ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 13/49] fix: LassoCrdDesc zeroes the passed start vector
 instead of starting from it

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 1fd04d8..adbaa09 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -32,7 +32,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	copy(betaOld, x0)
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From b3cf5a0436bebeca20875e9284101f162cd852b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 14/49] fix: LassoCrdDesc never converges when all coefficients
 are zero

---
 featselect/lassoCrdDesc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index adbaa09..6a6634d 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -62,7 +62,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			}
 		}
 
-		converged = maxChange/maxCoeff < tol
+		converged = maxChange <= tol*maxCoeff
 
 		numActive := 0
 		for _, j := range iterIndices {
-- 
2.43.0


From a08090eddae3af132ba170537de28b64e015d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 15/49] fix: LassoCrdDesc never selects the first feature of a
 dataset without a constant column

---
 featselect/lassoCrdDesc.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 6a6634d..651de18 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -26,9 +26,12 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
 
-	iterIndices := make([]int, nFeat-1)
-	for i := 1; i < nFeat; i++ {
-		iterIndices[i-1] = i
+	// Only a constant first column (bias) is left out
+	iterIndices := make([]int, 0, nFeat)
+	for i := 0; i < nFeat; i++ {
+		if i > 0 || !dset.HasBias {
+			iterIndices = append(iterIndices, i)
+		}
 	}
 
 	betaOld := make([]float64, nFeat)
-- 
2.43.0


From 21cdbeb945f95b8c398578c880ff9b84ba499b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 16/49] fix: LassoCrdDesc returns solutions that violate the
 KKT conditions

---
 featselect/lassoCrdDesc.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 651de18..4e1b09d 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -25,6 +25,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	yVec := mat.NewVecDense(len(dset.y), dset.y)
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
+	XTy.ScaleVec(1.0/float64(nr), XTy)
 
 	// Only a constant first column (bias) is left out
 	iterIndices := make([]int, 0, nFeat)
@@ -44,7 +45,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			covDiag := covMat.At(j, j)
 			oldCoeff := betaOld[j]
 			covDotBetaNoDiag := covDotBeta[j] - betaOld[j]*covDiag
-			newCoeff := XTy.AtVec(j)/float64(nr) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
+			newCoeff := XTy.AtVec(j) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
 			newCoeff = SoftThreshold(newCoeff, lamb) / covDiag
 
 			UpdateCovDotBeta(covMat, covDotBeta, j, oldCoeff, newCoeff)
@@ -104,13 +105,14 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
+// UnsatisfiedKKTConditions returns the inactive indices where the KKT conditions are not met.
+// Xy is X^T y divided by the number of data points
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
-	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+	tol := 1e-10
+	for i := 0; i < len(covDotBeta); i++ {
+		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value > lamb+tol && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From dc8b926840e6017fc86dd79aefd759f36baa85cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 17/49] fix: CohenKappa is NaN when both sets contain all
 features

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..74d3145 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -464,5 +464,9 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+	if PrE == 1.0 {
+		// Both sets contain everything
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0


From a26451e45903351c7119e0ec926bb2705fd57971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 18/49] fix: ParseCSV reads values padded with blanks as zero

---
 featselect/csvIO.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..83f354f 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"gonum.org/v1/gonum/floats"
 
@@ -135,7 +136,7 @@ func ParseCSV(handle io.Reader, targetCol int) *Dataset {
 		} else {
 			row := make([]float64, len(line))
 			for i, v := range line {
-				if fl, err := strconv.ParseFloat(v, 64); err == nil {
+				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
 					row[i] = fl
 				}
 			}
-- 
2.43.0


From d7fb0b8b22bc4d4b240dd71d19a042cd1254e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 19/49] fix: NestedLasso normalises the caller's dataset

---
 featselect/nestedLasso.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..2cd6bac 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -2,6 +2,8 @@ package featselect
 
 import (
 	"fmt"
+
+	"gonum.org/v1/gonum/mat"
 )
 
 // PureLassoLarsPathWithCrit is a type that holds all the nodes in addition to
@@ -66,7 +68,7 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	normD = NewNormalizedData(mat.DenseCopyOf(data.X), yCpy)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From cda67e85492de333c6c0302de6feb48a7922a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 20/49] fix: rows returned by IterProduct share memory

---
 featselect/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index 74d3145..f385751 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,7 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				newRow := append(append([]int{}, res[j]...), values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From 6f6a0085c9d950dac2c0198ce72434144ca506d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 21/49] fix: the information criteria are infinite for a
 perfect fit

---
 featselect/criteria.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/criteria.go b/featselect/criteria.go
index 50015ff..c6b19f9 100644
--- a/featselect/criteria.go
+++ b/featselect/criteria.go
@@ -15,6 +15,7 @@ type crit func(num_feat int, num_data int, logL float64) float64
 // featues (num_feat), number of data points (num_data) and
 // the log of the likelihood function
 func Aic(numFeat int, numData int, logL float64) float64 {
+	logL = math.Max(logL, RssTol)
 	return 2.0*float64(numFeat) + float64(numData)*math.Log(logL)
 }
 
@@ -31,6 +32,7 @@ func Aicc(numFeat int, numData int, logL float64) float64 {
 
 // Bic returns Bayes Information Criteria
 func Bic(numFeat int, numData int, logL float64) float64 {
+	logL = math.Max(logL, RssTol)
 	return float64(numFeat)*math.Log(float64(numData)) + float64(numData)*math.Log(logL)
 }
 
-- 
2.43.0


From 13fc38a57a545b6f7d3181084a631989751c8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 22/49] fix: WeightsFromAIC modifies the passed slice

---
 featselect/util.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index f385751..b8a54ff 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -276,17 +276,13 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		sumW += math.Exp(min - aic[i])
 	}
 
 	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+		w[i] = math.Exp(min-aic[i]) / sumW
 	}
 	return w
 }
-- 
2.43.0


From 939ce32e8b2078362c42c5cfb6536f7a36a51c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 23/49] fix: PlotPath leaves out the last feature

---
 featselect/lassoPlot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 392d13d..0776af8 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -224,7 +224,7 @@ func (p *LassoLarsPath) PlotPath(cr *AxisRange) *plot.Plot {
 
 	_, numFeat := p.MaxMinFeatNo()
 
-	for featNo := 0; featNo < numFeat; featNo++ {
+	for featNo := 0; featNo <= numFeat; featNo++ {
 		xy := p.ExtractPath(featNo)
 		line, err := plotter.NewLine(xy)
 
-- 
2.43.0


From e7b6ada6e62be6a105bc2a486c7d88a4fba973f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 24/49] fix: GetCriteria panics on paths with an empty model

---
 featselect/lassoPlot.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 0776af8..f0db548 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -9,6 +9,7 @@ import (
 
 	"image/color"
 
+	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/plotter"
 	"gonum.org/v1/plot/vg"
@@ -125,9 +126,12 @@ func (p *LassoLarsPath) GetCriteria(criteria crit) []float64 {
 
 	for i, n := range p.LassoLarsNodes {
 		model := Selected2Model(n.Selection, nFeat)
-		design := GetDesignMatrix(model, p.Dset.X)
-		rss := Rss(design, n.Coeff, p.Dset.Y)
 		num := NumFeatures(model)
+		rss := math.Pow(floats.Norm(p.Dset.Y, 2), 2)
+		if num > 0 {
+			design := GetDesignMatrix(model, p.Dset.X)
+			rss = Rss(design, n.Coeff, p.Dset.Y)
+		}
 		values[i] = criteria(num, nData, rss)
 	}
 	return values
-- 
2.43.0


From b50fab05a300216a5983b34f7841af0c7a7be622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 25/49] fix: the search progress is out of date when
 SelectModel returns

---
 featselect/optimize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 2e2d12a..fcab242 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -175,6 +175,8 @@ exploreLoop:
 			wantChildNode <- node
 		}
 	}
+	sp.Set(highscore.BestScore(), numChecked, log2Pruned)
+
 	// The last parent has been processed, release its worker
 	<-childReady
 	close(node)
-- 
2.43.0


From 0afbdaf6f09f7e43fd4e3307d1fecb82c1eacfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 26/49] fix: the number of pruned models is overestimated by a
 factor two

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index fcab242..27be2f1 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -157,7 +157,7 @@ exploreLoop:
 			}
 
 		case prLevel := <-pruneCh:
-			log2Pruned = NewLog2Pruned(log2Pruned, ncols-prLevel)
+			log2Pruned = NewLog2Pruned(log2Pruned, ncols-prLevel-1)
 			numInProgress--
 			if numInProgress <= 0 && queue.Len() == 0 {
 				break exploreLoop
-- 
2.43.0


From e33196a0e814be2d3249ccbb40f0516e435c732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 27/49] fix: datasets with different feature names are
 considered equal

---
 featselect/csvIO.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 83f354f..748dc76 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -80,6 +80,12 @@ func (d *Dataset) IsEqual(o *Dataset) bool {
 		return false
 	}
 
+	for i := range d.Names {
+		if d.Names[i] != o.Names[i] {
+			return false
+		}
+	}
+
 	tol := 1e-10
 	if !floats.EqualApprox(d.Y, o.Y, tol) {
 		return false
-- 
2.43.0


From 4a34df72ad46ff40bb916f9b959bda58b671e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 28/49] fix: goselect-plotlasso ignores coeffmin and coeffmax

---
 cmdDepreciated/goselect-plotlasso/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdDepreciated/goselect-plotlasso/main.go b/cmdDepreciated/goselect-plotlasso/main.go
index d247c65..1b28688 100644
--- a/cmdDepreciated/goselect-plotlasso/main.go
+++ b/cmdDepreciated/goselect-plotlasso/main.go
@@ -41,6 +41,7 @@ func main() {
 	lassoPathCoeffMin := flag.Float64("coeffmin", 0.0, "Minumum coefficient value in plot")
 	lassoPathCoeffMax := flag.Float64("coeffmax", 0.0, "Maximum coefficient value in plot. If equal to the minimum value, the range is autoscaled")
 
+	flag.Parse()
 	coeffMin := *lassoPathCoeffMin
 	coeffMax := *lassoPathCoeffMax
 	var coeffRng featselect.AxisRange
@@ -53,6 +54,5 @@ func main() {
 		coeffRngPtr = nil
 	}
 
-	flag.Parse()
 	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)
 }
-- 
2.43.0


From afbf1156ca196265d0a06e094c8f3f5c8bbf4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 29/49] fix: Omp stops after an all-zero first column

---
 featselect/orthogonalMatchingPursuit.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featselect/orthogonalMatchingPursuit.go b/featselect/orthogonalMatchingPursuit.go
index 908bb95..ea7edbe 100644
--- a/featselect/orthogonalMatchingPursuit.go
+++ b/featselect/orthogonalMatchingPursuit.go
@@ -51,6 +51,11 @@ func Omp(X mat.Matrix, y []float64, tol float64) *OmpResult {
 		resNorm := mat.Norm(residuals, 2)
 		proj.MulVec(X.T(), residuals)
 		for i := 0; i < proj.Len(); i++ {
+			// An all-zero column is never correlated with the residuals
+			if norms.AtVec(i) == 0.0 {
+				proj.SetVec(i, 0.0)
+				continue
+			}
 			proj.SetVec(i, math.Abs(proj.AtVec(i)/(resNorm*norms.AtVec(i))))
 		}
 
-- 
2.43.0


From 5062ac48155811ce85bfa11098e6cd82332a4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 30/49] fix: PlotDeviations panics on paths with an empty model

---
 featselect/lassoPlot.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index f0db548..4ac78a4 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -174,8 +174,11 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 	rmseVals := make(plotter.XYs, len(p.LassoLarsNodes))
 	for i, n := range p.LassoLarsNodes {
 		model := Selected2Model(n.Selection, nFeat)
-		design := GetDesignMatrix(model, p.Dset.X)
-		rss := Rss(design, n.Coeff, p.Dset.Y)
+		rss := math.Pow(floats.Norm(p.Dset.Y, 2), 2)
+		if NumFeatures(model) > 0 {
+			design := GetDesignMatrix(model, p.Dset.X)
+			rss = Rss(design, n.Coeff, p.Dset.Y)
+		}
 		rmse := math.Sqrt(rss / float64(nData))
 		rmseVals[i] = plotter.XY{X: math.Log10(n.Lamb), Y: math.Log10(rmse)}
 	}
-- 
2.43.0


From d3d84cc5ef3b352912f3dd75a66f86ddde6c7ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 31/49] fix: workers of LassoCrdDescPath share the state of a
 CLasso correction

---
 featselect/lassoCorrections.go | 16 ++++++++++++++++
 featselect/lassoCrdDesc.go     |  7 ++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/featselect/lassoCorrections.go b/featselect/lassoCorrections.go
index b43d608..f114253 100644
--- a/featselect/lassoCorrections.go
+++ b/featselect/lassoCorrections.go
@@ -12,6 +12,15 @@ type LassoCorrection interface {
 	Update(beta []float64)
 }
 
+// CloneableCorrection is a correction that keeps a state between the iterations, and
+// therefore can't be used in several calculations at the same time
+type CloneableCorrection interface {
+	LassoCorrection
+
+	// Clone returns an independent copy
+	Clone() LassoCorrection
+}
+
 // PureLasso is a type that does not alter the original lasso method
 type PureLasso struct{}
 
@@ -38,6 +47,13 @@ func NewCLasso(numFeat int, eta float64) *CLasso {
 	return &cl
 }
 
+// Clone returns an independent copy of the correction
+func (cl *CLasso) Clone() LassoCorrection {
+	clone := NewCLasso(len(cl.beta), cl.eta)
+	copy(clone.beta, cl.beta)
+	return clone
+}
+
 // Update updates the feature covariance matrix
 func (cl *CLasso) Update(beta []float64) {
 	copy(cl.beta, beta)
diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 4e1b09d..f5f517a 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -164,7 +164,12 @@ type LassoRes struct {
 // PerformLassoCrd listens to the workload channel and passes its result to res
 func PerformLassoCrd(workload <-chan LassoCrdWorkload, res chan<- LassoRes) {
 	for wrk := range workload {
-		coeff := LassoCrdDesc(wrk.dset, wrk.lamb, wrk.cov, wrk.x0, wrk.maxIter, wrk.tol, wrk.corr)
+		corr := wrk.corr
+		if c, ok := corr.(CloneableCorrection); ok {
+			// The other workers use the same correction
+			corr = c.Clone()
+		}
+		coeff := LassoCrdDesc(wrk.dset, wrk.lamb, wrk.cov, wrk.x0, wrk.maxIter, wrk.tol, corr)
 		selection := []int{}
 		selectedCoeff := []float64{}
 		for j := range coeff {
-- 
2.43.0


From f8aa322a1eea73dd51619c90dfd70d0775e6fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 32/49] fix: PlotDeviations panics on a perfect fit

---
 featselect/lassoPlot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index 4ac78a4..ae72444 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -179,7 +179,7 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 			design := GetDesignMatrix(model, p.Dset.X)
 			rss = Rss(design, n.Coeff, p.Dset.Y)
 		}
-		rmse := math.Sqrt(rss / float64(nData))
+		rmse := math.Sqrt(math.Max(rss, RssTol) / float64(nData))
 		rmseVals[i] = plotter.XY{X: math.Log10(n.Lamb), Y: math.Log10(rmse)}
 	}
 
-- 
2.43.0


From cc09c8c9653e29a7e3cbbb0b834177c22ba8ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 33/49] fix: LassoCrdDesc selects the constant column when the
 start vector has a coefficient for it

---
 featselect/lassoCrdDesc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index f5f517a..dbdf09b 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -37,6 +37,9 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 
 	betaOld := make([]float64, nFeat)
 	copy(betaOld, x0)
+	if dset.HasBias {
+		betaOld[0] = 0.0
+	}
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From 102b9b070e8ffff20088a330ee839200f6faae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 34/49] fix: NestedLasso never ends when no feature is removed
 and panics when none is left

---
 featselect/nestedLasso.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 2cd6bac..85cb16c 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -58,7 +58,7 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
 		}
 
-		if newNum <= 2 {
+		if newNum <= 2 || len(survivors) == 0 || len(survivors) >= currentNumCoeff {
 			break
 		}
 
-- 
2.43.0


From a627cb42e48a5bbe2c147c13ba168143a798a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 35/49] fix: Path2Unnormalized assumes that the constant column
 contains ones

---
 featselect/lasso_lars.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/lasso_lars.go b/featselect/lasso_lars.go
index f6fa5e2..417760c 100644
--- a/featselect/lasso_lars.go
+++ b/featselect/lasso_lars.go
@@ -251,6 +251,10 @@ func joinFeatSign(jFeat int, X mat.Matrix, Xe mat.Matrix, y mat.Vector, coeffVec
 func Path2Unnormalized(data *NormalizedData, path []*LassoLarsNode) {
 	for _, node := range path {
 		bias := data.LinearTransformationBias(node.Selection, node.Coeff)
+		if data.HasBias && data.mu[0] != 0.0 {
+			// The constant in the first column is not necessarily one
+			bias /= data.mu[0]
+		}
 
 		for i := range node.Selection {
 			node.Coeff[i] = data.LinearNormalizationTransformation(node.Selection[i], node.Coeff[i])
-- 
2.43.0


From 66bc6c520db4d772030edea35c78402195165074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 36/49] fix: NestedLasso mixes up features after the target
 column

---
 featselect/nestedLasso.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 85cb16c..fed082e 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -53,9 +53,13 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 		newNum := int(keep * float64(currentNumCoeff))
 		survivors := path.PickMostRelevantFeatures(newNum)
 
-		// Map selection
+		// Map selection (the target column is not a feature)
+		featNames := make([]string, currentNumCoeff)
+		for i := range featNames {
+			featNames[i] = curDset.GetFeatName(i)
+		}
 		for _, v := range newPath {
-			v.Selection = MapSelectionByName(data, curDset.Names, v.Selection)
+			v.Selection = MapSelectionByName(data, featNames, v.Selection)
 		}
 
 		if newNum <= 2 || len(survivors) == 0 || len(survivors) >= currentNumCoeff {
-- 
2.43.0


From b2ec9b833dcac35db562a8b0d3f6a94b619d2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:20 +0000
Subject: [PATCH 37/49] fix: NewLog2Pruned overflows when more than 1024
 features are pruned at once

---
 featselect/util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index b8a54ff..85e2645 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -71,8 +71,10 @@ func Sum(a []int) int {
 // current is log2 of the current number of pruned solutions
 // numPruned is log2 of the new number of pruned solutions
 func NewLog2Pruned(current float64, numPruned int) float64 {
-	diff := float64(numPruned) - current
-	return current + math.Log2(1+math.Pow(2, diff))
+	// Factor out the larger one, otherwise the power can overflow
+	larger := math.Max(current, float64(numPruned))
+	smaller := math.Min(current, float64(numPruned))
+	return larger + math.Log2(1+math.Pow(2, smaller-larger))
 }
 
 // RearrangeDense changes the order of the columns in the matrix X such that they appear
-- 
2.43.0


From 8f24a3f9ad2d35557a79790ec709afe073301144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:00 +0000
Subject: [PATCH 38/49] fix: concurrent uses of a thresholded covariance race
 on the counter of its operator

---
 featselect/covarianceMatrix.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featselect/covarianceMatrix.go b/featselect/covarianceMatrix.go
index fbddf68..eea80fa 100644
--- a/featselect/covarianceMatrix.go
+++ b/featselect/covarianceMatrix.go
@@ -64,6 +64,9 @@ func (s *SparseThresholded) Get(X mat.Matrix) mat.Matrix {
 	cov := mat.NewDense(nc, nc, nil)
 	cov.Product(X.T(), X)
 	cov.Scale(1.0/float64(nr), cov)
-	s.op.Apply(cov)
+
+	// Apply counts in the operator, and several goroutines may be here at once
+	op := *s.op
+	op.Apply(cov)
 	return cov
 }
-- 
2.43.0


From e28299cd5de1cc31b44478e10c18c3d50528bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 39/49] fix: Cohen's kappa of selections with repeated features
 can exceed one

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 85e2645..94ba831 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -435,6 +435,10 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 		return 1.0
 	}
 
+	// The selections are sets, a repeated feature counts once
+	s1 = UnionInt([]int{}, s1)
+	s2 = UnionInt([]int{}, s2)
+
 	n11 := 0
 	n12 := 0
 	n21 := 0
-- 
2.43.0


From f50757fbbce8eb26b90c78d8894fb08cf1a121ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:20 +0000
Subject: [PATCH 40/49] fix: information criteria of a path mix up coefficients
 of selections that are not sorted

---
 featselect/lassoPlot.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/featselect/lassoPlot.go b/featselect/lassoPlot.go
index ae72444..f58680a 100644
--- a/featselect/lassoPlot.go
+++ b/featselect/lassoPlot.go
@@ -9,7 +9,6 @@ import (
 
 	"image/color"
 
-	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/plot"
 	"gonum.org/v1/plot/plotter"
 	"gonum.org/v1/plot/vg"
@@ -127,11 +126,7 @@ func (p *LassoLarsPath) GetCriteria(criteria crit) []float64 {
 	for i, n := range p.LassoLarsNodes {
 		model := Selected2Model(n.Selection, nFeat)
 		num := NumFeatures(model)
-		rss := math.Pow(floats.Norm(p.Dset.Y, 2), 2)
-		if num > 0 {
-			design := GetDesignMatrix(model, p.Dset.X)
-			rss = Rss(design, n.Coeff, p.Dset.Y)
-		}
+		rss := Rss(p.Dset.X, FullCoeffVector(nFeat, n.Selection, n.Coeff), p.Dset.Y)
 		values[i] = criteria(num, nData, rss)
 	}
 	return values
@@ -173,12 +168,7 @@ func (p *LassoLarsPath) PlotDeviations() *plot.Plot {
 	nData, nFeat := p.Dset.X.Dims()
 	rmseVals := make(plotter.XYs, len(p.LassoLarsNodes))
 	for i, n := range p.LassoLarsNodes {
-		model := Selected2Model(n.Selection, nFeat)
-		rss := math.Pow(floats.Norm(p.Dset.Y, 2), 2)
-		if NumFeatures(model) > 0 {
-			design := GetDesignMatrix(model, p.Dset.X)
-			rss = Rss(design, n.Coeff, p.Dset.Y)
-		}
+		rss := Rss(p.Dset.X, FullCoeffVector(nFeat, n.Selection, n.Coeff), p.Dset.Y)
 		rmse := math.Sqrt(math.Max(rss, RssTol) / float64(nData))
 		rmseVals[i] = plotter.XY{X: math.Log10(n.Lamb), Y: math.Log10(rmse)}
 	}
-- 
2.43.0


From 0bb7cf7d10a6a426d70daf9b95d11637d6db8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:43 +0000
Subject: [PATCH 41/49] fix: Gcv is not the leave-one-out error that its test
 compares it with

---
 featselect/fit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/fit.go b/featselect/fit.go
index a32a915..721bfed 100644
--- a/featselect/fit.go
+++ b/featselect/fit.go
@@ -102,7 +102,7 @@ func DenumMatrixGcv(X mat.Matrix) *mat.Dense {
 func Gcv(denum mat.Matrix, data []float64, pred []float64) float64 {
 	gcv := 0.0
 	for i := 0; i < len(data); i++ {
-		gcv += math.Pow(data[i]-pred[i], 2.0) / (1.0 - denum.At(i, i))
+		gcv += math.Pow((data[i]-pred[i])/(1.0-denum.At(i, i)), 2.0)
 	}
 	return math.Sqrt(gcv / float64(len(pred)))
 }
-- 
2.43.0


From 85783ca8395f7570c09d62e81df308d5be32fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 42/49] fix: RemoveLeastPromising empties a queue of nodes with
 equal bounds

---
 featselect/optimize.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 27be2f1..d82b861 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -307,9 +307,13 @@ func CleanQueue(q *list.List, threshold float64) {
 // mean Lower bound
 func RemoveLeastPromising(q *list.List) {
 	avgLowerBound := 0.0
+	minLowerBound := math.Inf(1)
 	for item := q.Front(); item != nil; item = item.Next() {
 		avgLowerBound += item.Value.(*Node).Lower
+		minLowerBound = math.Min(minLowerBound, item.Value.(*Node).Lower)
 	}
 	avgLowerBound /= float64(q.Len())
-	CleanQueue(q, avgLowerBound)
+
+	// Rounding can make the mean of equal bounds smaller than all of them
+	CleanQueue(q, math.Max(avgLowerBound, minLowerBound))
 }
-- 
2.43.0


From 408a36925382f13145b12edeee75d99441d1520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:46 +0000
Subject: [PATCH 43/49] fix: results that were saved earlier are lost when a
 program is interrupted while it saves

---
 cmd/bnb.go      | 13 ++++++-------
 cmd/lasso.go    |  9 +++------
 cmd/sasearch.go | 15 ++++++++-------
 cmd/save.go     | 36 ++++++++++++++++++++++++++++++++++++
 4 files changed, 53 insertions(+), 20 deletions(-)
 create mode 100644 cmd/save.go

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 74bd5d9..27b96ee 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -18,9 +18,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
 	"log"
-	"os"
 	"sync"
 	"time"
 
@@ -64,11 +62,12 @@ func init() {
 }
 
 func saveHighscoreList(fname string, h *featselect.Highscore) {
-	file, _ := os.Open(fname)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(h)
-	ioutil.WriteFile(fname, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(h)
+	if err != nil {
+		log.Print(err)
+		return
+	}
+	saveResult(fname, highscoreJSON)
 }
 
 func setSearchFinished(finished chan int) {
diff --git a/cmd/lasso.go b/cmd/lasso.go
index d4eabc1..e7e0026 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -18,8 +18,6 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
-	"os"
 
 	"github.com/davidkleiven/goselect/featselect"
 	"github.com/spf13/cobra"
@@ -115,9 +113,8 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 		return
 	}
 
-	file, _ := os.Create(out)
-	defer file.Close()
-
-	ioutil.WriteFile(out, js, 0644)
+	if saveResult(out, js) != nil {
+		return
+	}
 	fmt.Printf("LASSO-LARS results written to %s\n", out)
 }
diff --git a/cmd/sasearch.go b/cmd/sasearch.go
index dd2549e..4f66e01 100644
--- a/cmd/sasearch.go
+++ b/cmd/sasearch.go
@@ -18,10 +18,8 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
-	"io/ioutil"
 	"log"
 	"math/rand"
-	"os"
 	"time"
 
 	"github.com/davidkleiven/goselect/featselect"
@@ -66,11 +64,14 @@ func saSearch(csvfile string, targetCol int, out string, sweeps int) {
 	rand.Seed(time.Now().UTC().UnixNano())
 	dset := featselect.ReadCSV(csvfile, targetCol)
 	res := featselect.SelectModelSA(dset.X, dset.Y, sweeps, featselect.Aicc)
-	file, _ := os.Open(out)
-	defer file.Close()
-
-	highscoreJSON, _ := json.Marshal(res.Scores)
-	ioutil.WriteFile(out, highscoreJSON, 0644)
+	highscoreJSON, err := json.Marshal(res.Scores)
+	if err != nil {
+		log.Print(err)
+		return
+	}
+	if saveResult(out, highscoreJSON) != nil {
+		return
+	}
 
 	fmt.Printf("SA highscore list written to %s", out)
 }
diff --git a/cmd/save.go b/cmd/save.go
new file mode 100644
index 0000000..033d433
--- /dev/null
+++ b/cmd/save.go
@@ -0,0 +1,36 @@
+package cmd
+
+import (
+	"io/ioutil"
+	"log"
+	"os"
+)
+
+// saveResult stores the data in a file. If the program is interrupted or the data
+// can't be written, a file that existed before is left as it was: results are written
+// to a temporary file that replaces the old one when it is complete.
+func saveResult(fname string, data []byte) error {
+	perm := os.FileMode(0644)
+	if info, err := os.Lstat(fname); err == nil {
+		if !info.Mode().IsRegular() {
+			// Devices, pipes and links can't be replaced
+			return ioutil.WriteFile(fname, data, perm)
+		}
+		perm = info.Mode().Perm()
+	}
+
+	tmp := fname + ".tmp"
+	err := ioutil.WriteFile(tmp, data, perm)
+	if os.IsPermission(err) {
+		// No new files are allowed in this folder
+		return ioutil.WriteFile(fname, data, perm)
+	}
+	if err == nil {
+		err = os.Rename(tmp, fname)
+	}
+	if err != nil {
+		os.Remove(tmp)
+		log.Print(err)
+	}
+	return err
+}
-- 
2.43.0


From 8288982ac07333175fcebeaa9edc01a719841f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:50 +0000
Subject: [PATCH 44/49] fix: names of targets and files are used as format
 strings

---
 cmd/bnb.go                 | 2 +-
 featselect/cohens_kappa.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/bnb.go b/cmd/bnb.go
index 27b96ee..4a68ce4 100644
--- a/cmd/bnb.go
+++ b/cmd/bnb.go
@@ -105,7 +105,7 @@ func findOptimalSolution(csvfile string, targetCol int, cutoff float64, outfile
 	}()
 
 	c := time.Tick(60 * time.Second)
-	fmt.Printf("Saving highscore list periodically to " + outfile + "\n")
+	fmt.Printf("Saving highscore list periodically to %s\n", outfile)
 
 timeloop:
 	for {
diff --git a/featselect/cohens_kappa.go b/featselect/cohens_kappa.go
index 2031c79..b788cd0 100644
--- a/featselect/cohens_kappa.go
+++ b/featselect/cohens_kappa.go
@@ -92,7 +92,7 @@ func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[str
 
 		numReceives++
 		hyper := res.target.HyperParameters()
-		fmt.Printf(res.target.StringRep()+" kappa: %3.3f\n", res.kappa)
+		fmt.Printf("%s kappa: %3.3f\n", res.target.StringRep(), res.kappa)
 
 		if res.kappa > bestKappa {
 			bestKappa = res.kappa
-- 
2.43.0


From 19b99520750b161337e1cc54d88fcb2261917759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 45/49] fix: MorsePenroseCD.C keeps the singular values that it
 should leave out

---
 featselect/lasso_cd.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featselect/lasso_cd.go b/featselect/lasso_cd.go
index 4a777fe..f17f129 100644
--- a/featselect/lasso_cd.go
+++ b/featselect/lasso_cd.go
@@ -46,6 +46,8 @@ func (m *MorsePenroseCD) C(y mat.Vector) *mat.VecDense {
 	for i := 0; i < len(s); i++ {
 		if s[i]*s[i] > 1e-6 {
 			s[i] = 1.0 / s[i]
+		} else {
+			s[i] = 0.0
 		}
 	}
 
-- 
2.43.0


From 424f2fb84c3a751c6c190692f448b10ec1fa8aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:43 +0000
Subject: [PATCH 46/49] fix: FeatNoByName returns another feature's number for
 the name of the target

---
 featselect/csvIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 748dc76..3854906 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -35,7 +35,7 @@ func (d *Dataset) GetFeatName(i int) string {
 // passed name
 func (d *Dataset) FeatNoByName(name string) int {
 	for i, n := range d.Names {
-		if n == name {
+		if n == name && i != d.TargetCol {
 			if i > d.TargetCol {
 				return i - 1
 			}
-- 
2.43.0


From 32fd556b6f55ab5e50ee5875ff98e5d680ac6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:19 +0000
Subject: [PATCH 47/49] fix: coordinate descent divides by zero for a constant
 column whose correction does not vanish

---
 featselect/lassoCrdDesc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index dbdf09b..6671236 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -84,6 +84,9 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 
 		if converged {
 			unsatisfied := UnsatisfiedKKTConditions(XTy, covDotBeta, beta, lamb, corr)
+			if dset.HasBias && len(unsatisfied) > 0 && unsatisfied[0] == 0 {
+				unsatisfied = unsatisfied[1:]
+			}
 			if len(unsatisfied) == 0 {
 				break
 			} else {
-- 
2.43.0


From d687791a204820e724ad28edb6da8c53a5b626b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 48/49] fix: coordinate descent gives no warning when it stops
 before the optimality conditions hold

---
 featselect/lassoCrdDesc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 6671236..194a650 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -90,6 +90,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			if len(unsatisfied) == 0 {
 				break
 			} else {
+				converged = false
 				iterIndices = UnionInt(iterIndices, unsatisfied)
 			}
 		}
-- 
2.43.0


From 6f64a0af30309b8866d8454c4d55034c19caa9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:57 +0000
Subject: [PATCH 49/49] fix: lasso replaces earlier results by an empty path
 when the algorithm is unknown

---
 cmd/lasso.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/lasso.go b/cmd/lasso.go
index e7e0026..41ab764 100644
--- a/cmd/lasso.go
+++ b/cmd/lasso.go
@@ -91,6 +91,9 @@ func lassoFit(csvfile string, targetCol int, out string, lambMin float64, lambMa
 		}
 		lambs := featselect.Logspace(lambMin, lambMax, num)
 		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
+	} else {
+		fmt.Printf("Unknown lasso type %s\n", lassoType)
+		return
 	}
 
 	featselect.Path2Unnormalized(normDset, larspath)
-- 
2.43.0

