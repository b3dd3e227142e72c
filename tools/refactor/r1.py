# a behaviour-preserving rewrite of many functions
import sys
R=sys.argv[1]
F='featselect/'
def ed(f,*prs):
    p=R+'/'+f; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
ed(F+'optimize.go',
("""	gcsMod := make([]bool, len(model))
	copy(gcsMod, model[:start])
	for i := start; i < len(model); i++ {
		gcsMod[i] = true
	}
	return gcsMod
""","""	return fillFrom(model, start, true)
"""),
("""	lcsMod := make([]bool, len(model))
	copy(lcsMod, model[:start])

	for i := start; i < len(model); i++ {
		lcsMod[i] = false
	}
	return lcsMod
}
""","""	return fillFrom(model, start, false)
}

func fillFrom(model []bool, start int, value bool) []bool {
	res := append([]bool{}, model[:start]...)
	for len(res) < len(model) {
		res = append(res, value)
	}
	return res
}
"""),
("""	if k := NumFeatures(rootNode.Model); k > 0 && k < nrows {
		design := GetDesignMatrix(rootNode.Model, X)
		rootNode.Coeff = Fit(design, y)
		rootNode.Score = -Aicc(k, nrows, Rss(design, rootNode.Coeff, y))
		highscore.Insert(rootNode)
""","""	if k := NumFeatures(rootNode.Model); k > 0 && k < nrows {
		scoreNode(rootNode, X, y)
		highscore.Insert(rootNode)
"""),
("""		if numFeat > 0 && numFeat < nrows && isNewNode(n) {
			design := GetDesignMatrix(n.Model, X)
			n.Coeff = Fit(design, y)
			rss := Rss(design, n.Coeff, y)
			n.Score = -Aicc(numFeat, nrows, rss)
		} else {
			n.Score = -math.MaxFloat64
		}
		scoreCh <- n
	}
}
""","""		n.Score = -math.MaxFloat64
		if isNewNode(n) && numFeat < nrows && numFeat > 0 {
			scoreNode(n, X, y)
		}
		scoreCh <- n
	}
}

// scoreNode fits the model of the node
func scoreNode(n *Node, X mat.Matrix, y []float64) {
	design := GetDesignMatrix(n.Model, X)
	nrows, k := design.Dims()
	n.Coeff = Fit(design, y)
	n.Score = -Aicc(k, nrows, Rss(design, n.Coeff, y))
}
"""),
("""	numScoreWorkers := 8
	for i := 0; i < numScoreWorkers; i++ {
		go ScoreWorker(node, score, X, y)
	}

	numChildWorkers := 8
	for i := 0; i < numChildWorkers; i++ {
		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
	}
""","""	const numWorkers = 8
	for i := 0; i < numWorkers; i++ {
		go ScoreWorker(node, score, X, y)
		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
	}
	done := func() bool { return numInProgress <= 0 && queue.Len() == 0 }
"""),
("	numInProgress := 2\n\n",""),
("	numChecked := 0\n","	numChecked := 0\n	numInProgress := 2\n"),
("""			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}

		case prLevel""","""			if done() {
				break exploreLoop
			}

		case prLevel"""),
("""			numInProgress--
			if numInProgress <= 0 && queue.Len() == 0 {
				break exploreLoop
			}
""","""			if numInProgress--; done() {
				break exploreLoop
			}
"""),
("""			element := queue.Front()
			var node *Node
			node = nil
			if element != nil {
				node = element.Value.(*Node)
				queue.Remove(queue.Front())
				numInProgress += 2
			}
			wantChildNode <- node
""","""			var next *Node
			if queue.Len() > 0 {
				next = queue.Remove(queue.Front()).(*Node)
				numInProgress += 2
			}
			wantChildNode <- next
"""),
("""	<-childReady
	close(node)
	close(wantChildNode)
	close(pruneCh)
	close(score)
""","""	<-childReady
	close(wantChildNode)
	close(node)
"""),
("""	if n < nrows {
		if n > 0 || NumFeatures(child.Model) > 0 {
			child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
		} else {
			child.Lower = -1e100
			child.Upper = 1e100
		}
	} else {
		return nil
	}
""","""	if n >= nrows {
		return nil
	}
	child.Lower, child.Upper = -1e100, 1e100
	if n > 0 || NumFeatures(child.Model) > 0 {
		child.Lower, child.Upper = BoundsAICC(child.Model, child.Level, X, y)
	}
"""),
("""	for parent := range parentCh {
		if parent != nil {
			for _, flip := range []bool{false, true} {
				n := CreateChild(parent, flip, X, y, cutoff, h)
				if n == nil {
					pruneCh <- parent.Level
				} else {
					nodeCh <- n
				}
			}
		}
		ready <- true
	}
""","""	branch := func(parent *Node, flip bool) {
		if n := CreateChild(parent, flip, X, y, cutoff, h); n != nil {
			nodeCh <- n
			return
		}
		pruneCh <- parent.Level
	}
	for {
		parent, ok := <-parentCh
		if !ok {
			return
		}
		if parent != nil {
			branch(parent, false)
			branch(parent, true)
		}
		ready <- true
	}
"""),
("""	var next *list.Element
	for item := q.Front(); item != nil; item = next {
		next = item.Next()

		if item.Value.(*Node).Lower > threshold {
			q.Remove(item)
		}
	}
""","""	item := q.Back()
	for item != nil {
		prev := item.Prev()
		if node := item.Value.(*Node); !(node.Lower <= threshold) {
			q.Remove(item)
		}
		item = prev
	}
"""),
)
ed(F+'highscore.go',
("	rwlock   sync.RWMutex","	lock     sync.Mutex"),
)
p=R+'/'+F+'highscore.go'; s=open(p).read().replace('rwlock.RLock','lock.Lock').replace('rwlock.RUnlock','lock.Unlock').replace('rwlock.','lock.'); open(p,'w').write(s)
ed(F+'highscore.go',
("""	itemInserted := false
	for item := h.Items.Front(); item != nil; item = item.Next() {
		if item.Value == nil {
			panic("Insert: Value is nil")
		}
		if item.Value.(*Node).Score < node.Score {
			h.Items.InsertBefore(node, item)
			itemInserted = true
			if h.Items.Len() >= h.MaxItems {
				h.Items.Remove(h.Items.Back())
			}
			break
		}
	}

	if !itemInserted && h.Items.Len() < h.MaxItems {
		h.Items.PushBack(node)
	}
""","""	item := h.Items.Front()
	for item != nil && item.Value.(*Node).Score >= node.Score {
		item = item.Next()
	}
	if item == nil {
		if h.Items.Len() < h.MaxItems {
			h.Items.PushBack(node)
		}
		return
	}
	h.Items.InsertBefore(node, item)
	if h.Items.Len() >= h.MaxItems {
		h.Items.Remove(h.Items.Back())
	}
"""),
("""	scores := make([]float64, h.Items.Len())
	i := 0
	for item := h.Items.Front(); item != nil; item = item.Next() {
		scores[i] = item.Value.(*Node).Score
		i++
	}
	return scores
""","""	scores := make([]float64, 0, h.Items.Len())
	for item := h.Items.Front(); item != nil; item = item.Next() {
		scores = append(scores, item.Value.(*Node).Score)
	}
	return scores
"""),
)
ed(F+'searchProgress.go',("	rwlock        sync.RWMutex","	mu            sync.Mutex"))
p=R+'/'+F+'searchProgress.go'; s=open(p).read().replace('rwlock.RLock','mu.Lock').replace('rwlock.RUnlock','mu.Unlock').replace('rwlock.','mu.'); open(p,'w').write(s)
# coordinate descent path: shared helper for the work
ed(F+'lassoCrdDesc.go',
("""	for i := 0; i < numWorkers; i++ {
		go PerformLassoCrd(workChan, resChan)

		var wrk LassoCrdWorkload
		wrk.x0 = x0
		wrk.lamb = lambs[availableLambs[0]]
		wrk.lambIdx = availableLambs[0]
		availableLambs = availableLambs[1:]
		wrk.dset = dset
		wrk.cov = cov
		wrk.maxIter = maxIter
		wrk.tol = tol
		wrk.corr = correction
		workChan <- wrk
	}
""","""	submit := func(start []float64) {
		idx := availableLambs[0]
		availableLambs = availableLambs[1:]
		workChan <- LassoCrdWorkload{
			x0:      start,
			lamb:    lambs[idx],
			dset:    dset,
			cov:     cov,
			maxIter: maxIter,
			lambIdx: idx,
			tol:     tol,
			corr:    correction,
		}
	}
	for i := 0; i < numWorkers; i++ {
		go PerformLassoCrd(workChan, resChan)
		submit(x0)
	}
"""),
("""			var wrk LassoCrdWorkload
			wrk.x0 = make([]float64, nFeat)
			hnode := nodes[highestInserted]
			for i := range hnode.Selection {
				wrk.x0[hnode.Selection[i]] = hnode.Coeff[i]
			}
			wrk.lamb = lambs[availableLambs[0]]
			wrk.lambIdx = availableLambs[0]
			availableLambs = availableLambs[1:]
			wrk.dset = dset
			wrk.cov = cov
			wrk.maxIter = maxIter
			wrk.tol = tol
			wrk.corr = correction
			workChan <- wrk
""","""			start := make([]float64, nFeat)
			hnode := nodes[highestInserted]
			for i, j := range hnode.Selection {
				start[j] = hnode.Coeff[i]
			}
			submit(start)
"""),
("""	firstModelWithFeatures := 0
	for i := range nodes {
		if len(nodes[i].Selection) > 0 {
			firstModelWithFeatures = i
			break
		}
	}
	return nodes[firstModelWithFeatures:]
""","""	for i, n := range nodes {
		if len(n.Selection) != 0 {
			return nodes[i:]
		}
	}
	return nodes
"""),
)
ed(F+'cohens_kappa.go',
("""	numWorkers := 16
	workChannel := make(chan CohensKappaWorkload)
	resChannel := make(chan CohensKappaWorkload)
	nextTarget := 0
	for i := 0; i < numWorkers; i++ {
		go CohensKappaWorker(workChannel, resChannel)

		if nextTarget < len(targets) {
			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
		}
	}
""","""	const maxWorkers = 16
	workChannel := make(chan CohensKappaWorkload, len(targets))
	resChannel := make(chan CohensKappaWorkload)
	for _, t := range targets {
		workChannel <- CohensKappaWorkload{numSamples: numSamples, target: t}
	}
	close(workChannel)
	for i := 0; i < maxWorkers && i < len(targets); i++ {
		go CohensKappaWorker(workChannel, resChannel)
	}
"""),
("""
		if nextTarget < len(targets) {
			work := CohensKappaWorkload{
				numSamples: numSamples,
				target:     targets[nextTarget],
			}
			nextTarget++
			workChannel <- work
		}
""",""),
("""	close(workChannel)

	srt""","""	srt"""),
)
ed(F+'thresholdCov.go',
("""	for i := 0; i < num; i++ {
		for j := 0; j < nc; j++ {
			mat1.Set(i, j, X.At(indices[i], j))
		}
	}

	for i := num; i < nr; i++ {
		for j := 0; j < nc; j++ {
			mat2.Set(i-num, j, X.At(indices[i], j))
		}
	}
	return mat1, mat2
""","""	for i, idx := range indices {
		dst, row := mat1, i
		if i >= num {
			dst, row = mat2, i-num
		}
		for j := 0; j < nc; j++ {
			dst.Set(row, j, X.At(idx, j))
		}
	}
	return mat1, mat2
"""),
("""	ticker := time.Tick(10 * time.Second)
""","""	timer := time.NewTicker(10 * time.Second)
	defer timer.Stop()
	ticker := timer.C
"""),
("""	nr, nc := mat1Cpy.Dims()
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			mat1Cpy.Set(i, j, mat1Cpy.At(i, j)-mat2.At(i, j))
		}
	}

	var result ValueGridPt
	result.value = mat.Norm(mat1Cpy, 2.0)
	result.gridPt = gridPt
	res <- result
""","""	mat1Cpy.Sub(mat1Cpy, mat2)
	res <- ValueGridPt{value: mat.Norm(mat1Cpy, 2.0), gridPt: gridPt}
"""),
)
ed(F+'simmulatedAnnealing.go',
("""		accept := score < currentScore || math.Exp(-(score-currentScore)/temp) > rand.Float64()

		if accept {
""","""		if metropolis(score-currentScore, temp) {
"""),
("""	res.Coeff = coeff[:NumFeatures(current)]
	res.Selected = make([]int, NumFeatures(current))
	counter := 0
	for i, v := range current {
		if v {
			res.Selected[counter] = i
			counter++
		}
	}
	return &res
}
""","""	res.Selected = SelectedFeatures(current)
	res.Coeff = coeff[:len(res.Selected)]
	return &res
}

func metropolis(diff float64, temp float64) bool {
	if diff < 0 {
		return true
	}
	return rand.Float64() < math.Exp(-diff/temp)
}
"""),
)
ed(F+'saScore.go',
("""	if len(s.Items) == 0 {
		s.Items = append(s.Items, item)
		s.WorstItem = item
		s.BestItem = item
	} else if""","""	switch {
	case len(s.Items) == 0:
		s.Items = append(s.Items, item)
		s.WorstItem = item
		s.BestItem = item
	case"""),
("len(s.Items) < s.Cap {","len(s.Items) < s.Cap:"),
("""	} else {
		if item.Score > s.WorstItem.Score {""","""	default:
		if item.Score > s.WorstItem.Score {"""),
)
ed(F+'csvIO.go')
ed('cmd/bnb.go',
("""	defer setSearchFinished(searchFinished)
""","""	defer close(searchFinished)
"""),
("""func setSearchFinished(finished chan int) {
	finished <- 0
}

""",""),
("	searchFinished := make(chan int)","	searchFinished := make(chan struct{})"),
("""	c := time.Tick(60 * time.Second)
""","""	saveTicker := time.NewTicker(time.Minute)
	defer saveTicker.Stop()
"""),
("		case <-c:\n","		case <-saveTicker.C:\n"),
)
ed('cmd/save.go',
("""	tmp := fname + ".tmp"
	err := ioutil.WriteFile(tmp, data, perm)
""","""	tmp := fname + ".tmp"
	err := writeAll(tmp, data, perm)
"""),
("""	return err
}
""","""	return err
}

func writeAll(fname string, data []byte, perm os.FileMode) error {
	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
}
"""),
)
ed('cmd/lasso.go',
("""	larspath := []*featselect.LassoLarsNode{}
	if lassoType == "lars" {
		var estimator featselect.MorsePenroseCD
		larspath = featselect.LassoLars(normDset, lambMin, &estimator)
	} else if lassoType == "cd" {
		var cov featselect.CovMat
		var corr featselect.PureLasso
		if covType == "empirical" {
			var emp featselect.Empirical
			cov = &emp
		} else if covType == "identity" {
			var id featselect.Identity
			cov = &id
		} else if covType == "threshold" {
			cov = featselect.NewSparseThreshold(normDset.X)
		} else {
			fmt.Printf("Unknown covariance type %s\\n", covType)
			return
		}
		lambs := featselect.Logspace(lambMin, lambMax, num)
		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
	} else {
""","""	var larspath []*featselect.LassoLarsNode
	switch lassoType {
	case "lars":
		larspath = featselect.LassoLars(normDset, lambMin, &featselect.MorsePenroseCD{})
	case "cd":
		cov := newCov(covType, normDset)
		if cov == nil {
			fmt.Printf("Unknown covariance type %s\\n", covType)
			return
		}
		lambs := featselect.Logspace(lambMin, lambMax, num)
		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &featselect.PureLasso{})
	default:
"""),
("func lassoFit(","""func newCov(covType string, dset *featselect.NormalizedData) featselect.CovMat {
	switch covType {
	case "empirical":
		return &featselect.Empirical{}
	case "identity":
		return &featselect.Identity{}
	case "threshold":
		return featselect.NewSparseThreshold(dset.X)
	}
	return nil
}

func lassoFit("""),
)
