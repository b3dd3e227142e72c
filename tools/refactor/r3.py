import sys,re
R=sys.argv[1]
F='featselect/'
def ed(f,*prs):
    p=R+'/'+f; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
def fn(f,head,new):
    "replaces a whole function"
    p=R+'/'+f; s=open(p).read()
    a=s.index(head); b=s.index('\n}\n',a)+3
    open(p,'w').write(s[:a]+new+s[b:])
# search: workers expand and score, results are collected under a lock
fn(F+'optimize.go','func SelectModel(','''func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProgress, params *SelectModelOptParams) {
	nrows, ncols := X.Dims()
	if params == nil {
		params = NewSelectModelOptParams()
	}
	if ncols < 3 {
		panic("SelectModel: The number of features has to be larger or equal to 3.")
	}
	rootModel := params.RootModel
	if rootModel == nil {
		rootModel = make([]bool, ncols)
	} else if len(rootModel) != ncols {
		panic("SelectModel: Inconsistent length of rootModel.")
	}

	st := searchState{queue: list.New(), best: -1e100}
	st.wake = sync.NewCond(&st.mu)
	root := NewNode(0, rootModel)
	if k := NumFeatures(root.Model); k > 0 && k < nrows {
		design := GetDesignMatrix(root.Model, X)
		root.Coeff = Fit(design, y)
		root.Score = -Aicc(k, nrows, Rss(design, root.Coeff, y))
		highscore.Insert(root)
		st.numChecked++
		st.best = highscore.BestScore()
	}
	st.queue.PushBack(root)

	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				parent := st.next()
				if parent == nil {
					return
				}
				for _, flip := range [2]bool{false, true} {
					child := CreateChild(parent, flip, X, y, params.Cutoff, highscore)
					if child == nil {
						st.mu.Lock()
						st.log2Pruned = NewLog2Pruned(st.log2Pruned, ncols-parent.Level-1)
						st.mu.Unlock()
						continue
					}
					k := NumFeatures(child.Model)
					scored := k > 0 && k < nrows && isNewNode(child)
					if scored {
						design := GetDesignMatrix(child.Model, X)
						child.Coeff = Fit(design, y)
						child.Score = -Aicc(k, nrows, Rss(design, child.Coeff, y))
					} else {
						child.Score = -math.MaxFloat64
					}
					st.mu.Lock()
					if scored {
						highscore.Insert(child)
						st.numChecked++
						if b := highscore.BestScore(); b > st.best {
							st.best = b
							CleanQueue(st.queue, -b-params.Cutoff)
						}
					}
					if child.Level < ncols {
						st.queue.PushBack(child)
						st.wake.Signal()
					}
					if st.queue.Len() > params.MaxQueueSize {
						RemoveLeastPromising(st.queue)
						fmt.Printf("Reached maximum buffer size. Removed least promising without exploring them\\n"+
							"Number of nodes in the queue %d\\n", st.queue.Len())
					}
					sp.Set(highscore.BestScore(), st.numChecked, st.log2Pruned)
					st.mu.Unlock()
				}
				st.finish()
			}
		}()
	}
	wg.Wait()
	sp.Set(highscore.BestScore(), st.numChecked, st.log2Pruned)
}

type searchState struct {
	mu         sync.Mutex
	wake       *sync.Cond
	queue      *list.List
	busy       int
	numChecked int
	log2Pruned float64
	best       float64
}

// next returns nil when the search is finished
func (s *searchState) next() *Node {
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.queue.Len() == 0 {
		if s.busy == 0 {
			s.wake.Broadcast()
			return nil
		}
		s.wake.Wait()
	}
	s.busy++
	return s.queue.Remove(s.queue.Front()).(*Node)
}

func (s *searchState) finish() {
	s.mu.Lock()
	s.busy--
	s.wake.Broadcast()
	s.mu.Unlock()
}
''')
ed(F+'optimize.go',('	"math"\n','	"math"\n	"sync"\n'))
# highscore as it is, progress: one atomic value
open(R+'/'+F+'searchProgress.go','w').write('''package featselect

import "sync"

type SearchProgress struct {
	BestScore     float64
	NumExplored   int
	Log2NumPruned float64
	guard         chan struct{}
	once          sync.Once
}

func (sp *SearchProgress) lock() {
	sp.once.Do(func() { sp.guard = make(chan struct{}, 1) })
	sp.guard <- struct{}{}
}

func (sp *SearchProgress) unlock() { <-sp.guard }

// Set a new state
func (sp *SearchProgress) Set(bs float64, ne int, np float64) {
	sp.lock()
	defer sp.unlock()
	sp.BestScore, sp.NumExplored, sp.Log2NumPruned = bs, ne, np
}

// Get current state
func (sp *SearchProgress) Get() (bs float64, ne int, np float64) {
	sp.lock()
	bs, ne, np = sp.BestScore, sp.NumExplored, sp.Log2NumPruned
	sp.unlock()
	return
}
''')
fn(F+'lassoCrdDesc.go','func LassoCrdDescPath(','''func LassoCrdDescPath(dset *NormalizedData, cov CovMat, lambs []float64, maxIter int, tol float64, correction LassoCorrection) []*LassoLarsNode {
	_, nFeat := dset.X.Dims()
	work := make(chan LassoCrdWorkload, len(lambs))
	for i := len(lambs) - 1; i >= 0; i-- {
		work <- LassoCrdWorkload{x0: make([]float64, nFeat), lamb: lambs[i], dset: dset, cov: cov, maxIter: maxIter, lambIdx: i, tol: tol, corr: correction}
	}
	close(work)

	res := make(chan LassoRes, len(lambs))
	var wg sync.WaitGroup
	for i := 0; i < 10; i++ {
		wg.Add(1)
		go func() {
			PerformLassoCrd(work, res)
			wg.Done()
		}()
	}
	wg.Wait()
	close(res)

	nodes := make([]*LassoLarsNode, len(lambs))
	for r := range res {
		nodes[len(lambs)-1-r.lambIdx] = r.node
	}
	for _, node := range nodes {
		fmt.Printf("Lamb: %6.1e Num coeff. %5d\\n", node.Lamb, len(node.Selection))
	}
	first := sort.Search(1, func(int) bool { return true })
	for i := range nodes {
		if len(nodes[i].Selection) > 0 {
			first = i
			break
		}
	}
	return nodes[first:]
}
''')
ed(F+'lassoCrdDesc.go',('	"math"\n','	"math"\n	"sort"\n	"sync"\n'))
fn(F+'cohens_kappa.go','func CalculateCohenSequence(','''func CalculateCohenSequence(numSamples int, targets []CohensKappaTarget) map[string]float64 {
	kappas := make([]float64, len(targets))
	slots := make(chan struct{}, 16)
	var wg sync.WaitGroup
	for i := range targets {
		wg.Add(1)
		slots <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-slots }()
			kappas[i] = GetCohensKappa(numSamples, targets[i])
			fmt.Printf("%s kappa: %3.3f\\n", targets[i].StringRep(), kappas[i])
		}(i)
	}
	wg.Wait()

	var best map[string]float64
	bestKappa := 0.0
	for i, k := range kappas {
		if k > bestKappa {
			bestKappa, best = k, targets[i].HyperParameters()
		}
	}
	line := "-------------------------------------------------------------------\\n"
	fmt.Print(line)
	fmt.Printf("                    COHEN'S KAPPA SUMMARY                          \\n")
	fmt.Print(line)
	for _, i := range Argsort(kappas) {
		fmt.Printf("%54s Kappa: %3.3f\\n", targets[i].StringRep(), kappas[i])
	}
	fmt.Print(line)
	return best
}
''')
ed(F+'cohens_kappa.go',('	"math/rand"\n','	"math/rand"\n	"sync"\n'))
fn(F+'thresholdCov.go','func L2ConsistentCovTO(','''func L2ConsistentCovTO(X mat.Matrix, numSamples int, maxThreshold float64, step float64) *ThresholdOperator {
	nr, _ := X.Dims()
	n1 := int(float64(nr) * (1. - 1./math.Log(float64(nr))))
	numGrid := int(9.0 / step)
	mean := make([]float64, numGrid)

	ticker := time.NewTicker(10 * time.Second)
	defer ticker.Stop()
	for sample := 0; sample < numSamples; sample++ {
		train, test := RandomRowSplit(X, n1)
		cov1, cov2 := CovarianceMatrix(train), CovarianceMatrix(test)
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < 10 && w < numGrid; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res := make(chan ValueGridPt, 1)
				for {
					i := int(atomic.AddInt64(&next, 1))
					if i >= numGrid {
						return
					}
					CalculateFNormDiff(cov1, cov2, i, step, res)
					mean[i] += (<-res).value / float64(numSamples)
				}
			}()
		}
		wg.Wait()
		select {
		case <-ticker.C:
			fmt.Printf("Sample %10d of %10d\\n", sample*numGrid, numSamples*numGrid)
		default:
		}
	}
	return &ThresholdOperator{threshold: getThreshold(Argmin(mean), step)}
}
''')
ed(F+'thresholdCov.go',('	"math/rand"\n','	"math/rand"\n	"sync"\n	"sync/atomic"\n'),
("""	rand.Shuffle(len(indices), func(i, j int) { indices[i], indices[j] = indices[j], indices[i] })
""","""	for i := nr - 1; i > 0; i-- {
		j := rand.Intn(i + 1)
		indices[i], indices[j] = indices[j], indices[i]
	}
"""))
ed(F+'cohens_kappa.go',
("""	indices := make([]int, nr)
	for i := 0; i < nr; i++ {
		indices[i] = i
	}
""",""),
("""		rand.Shuffle(len(indices), func(i, j int) { indices[i], indices[j] = indices[j], indices[i] })

""","""		indices := rand.Perm(nr)
"""))
ed(F+'simmulatedAnnealing.go',("		index := rand.Intn(nc)\n","		index := int(rand.Int31n(int32(nc)))\n"))
# command: the search runs in the foreground, a timer goroutine saves
ed('cmd/bnb.go',
("""	wg.Add(1)
	go func() {
		defer wg.Done()
		defer setSearchFinished(searchFinished)
		featselect.SelectModel(dset.X, dset.Y, highscore, &progress, params)
	}()

	c := time.Tick(60 * time.Second)
	fmt.Printf("Saving highscore list periodically to %s\\n", outfile)

timeloop:
	for {
		select {
		case <-c:
			score, numChecked, log2Pruned := progress.Get()
			fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
			saveHighscoreList(outfile, highscore)
		case <-searchFinished:
			break timeloop
		}
	}
	saveHighscoreList(outfile, highscore)
	wg.Wait()
""","""	fmt.Printf("Saving highscore list periodically to %s\\n", outfile)
	ticker := time.NewTicker(60 * time.Second)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-searchFinished:
				return
			case <-ticker.C:
				score, numChecked, log2Pruned := progress.Get()
				fmt.Printf("%v: Score: %f, Num. checked: %d, Log2 pruned: %f\\n", time.Now().Format(time.RFC3339), score, numChecked, log2Pruned)
				saveHighscoreList(outfile, highscore)
			}
		}
	}()
	featselect.SelectModel(dset.X, dset.Y, highscore, &progress, params)
	ticker.Stop()
	close(searchFinished)
	wg.Wait()
	saveHighscoreList(outfile, highscore)
"""),
("""func setSearchFinished(finished chan int) {
	finished <- 0
}

""",""),
)
ed('cmd/save.go',
("""	tmp := fname + ".tmp"
	err := ioutil.WriteFile(tmp, data, perm)
	if os.IsPermission(err) {
		// No new files are allowed in this folder
		return ioutil.WriteFile(fname, data, perm)
	}
	if err == nil {
		err = os.Rename(tmp, fname)
	}
	if err != nil {
		os.Remove(tmp)
		log.Print(err)
	}
	return err
}
""","""	tmp := fname + ".tmp"
	f, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, perm)
	if os.IsPermission(err) {
		// No new files are allowed in this folder
		return ioutil.WriteFile(fname, data, perm)
	}
	if err != nil {
		log.Print(err)
		return err
	}
	w := bufio.NewWriterSize(f, 256)
	_, err = w.Write(data)
	if err == nil {
		err = w.Flush()
	}
	if err == nil {
		err = f.Sync()
	}
	if e := f.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Rename(tmp, fname)
	}
	if err != nil {
		os.Remove(tmp)
		log.Print(err)
	}
	return err
}
"""),
('	"io/ioutil"\n','	"bufio"\n	"io/ioutil"\n'),
)
