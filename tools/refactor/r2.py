import sys
R=sys.argv[1]
F='featselect/'
def ed(f,*prs):
    p=R+'/'+f; s=open(p).read()
    for a,b in prs:
        assert s.count(a)==1,(f,s.count(a),a)
        s=s.replace(a,b)
    open(p,'w').write(s)
ed(F+'fit.go',
("""	x := make([]float64, n)
	yvec := mat.NewVecDense(len(y), y)

	var svd mat.SVD
	svd.Factorize(X, mat.SVDThin)

	s := svd.Values(nil)
	var u, v mat.Dense
	svd.UTo(&u)
	svd.VTo(&v)

	var uTdoty mat.Dense
	uTdoty.Mul(u.T(), yvec)

	invSigma := 0.0
	for i := 0; i < len(s); i++ {
		if math.Abs(s[i]) > 1e-6 {
			invSigma = 1.0 / s[i]
		} else {
			invSigma = 0.0
		}

		uTdoty.Set(i, 0, uTdoty.At(i, 0)*invSigma)
	}

	var xMat mat.Dense
	xMat.Mul(&v, &uTdoty)
	for i := 0; i < len(x); i++ {
		x[i] = xMat.At(i, 0)
	}
	return x
""","""	var svd mat.SVD
	svd.Factorize(X, mat.SVDThin)

	s := svd.Values(nil)
	var u, v mat.Dense
	svd.UTo(&u)
	svd.VTo(&v)

	coeff := make([]float64, n)
	for k, sigma := range s {
		if sigma <= svdCutoff {
			continue
		}
		proj := 0.0
		for i, yi := range y {
			proj += u.At(i, k) * yi
		}
		proj /= sigma
		for j := range coeff {
			coeff[j] += v.At(j, k) * proj
		}
	}
	return coeff
"""),
("// PredictOne predicts","""// svdCutoff is the smallest singular value that is not regarded as zero
const svdCutoff = 1e-6

// PredictOne predicts"""),
("""	for i := 0; i < len(x); i++ {
		res += x[i] * coeff[i]
	}
	return res
}
""","""	for i := len(x) - 1; i >= 0; i-- {
		res += x[i] * coeff[i]
	}
	return res
}
"""),
("""	m, _ := X.Dims()
	res := mat.NewVecDense(m, nil)
	res.MulVec(X, NewSliceVec(coeff))
	return res.RawVector().Data
""","""	m, n := X.Dims()
	if n != len(coeff) {
		panic("Predict: Inconsistent number of coefficients")
	}
	res := make([]float64, m)
	for i := range res {
		for j, c := range coeff {
			res[i] += c * X.At(i, j)
		}
	}
	return res
"""),
("""	for i := 0; i < len(data); i++ {
		sumSq += math.Pow(pred[i]-data[i], 2)
	}
""","""	for i, v := range data {
		diff := v - pred[i]
		sumSq += diff * diff
	}
"""),
("""	gcv := 0.0
	for i := 0; i < len(data); i++ {
		gcv += math.Pow((data[i]-pred[i])/(1.0-denum.At(i, i)), 2.0)
	}
	return math.Sqrt(gcv / float64(len(pred)))
""","""	n := len(data)
	gcv := 0.0
	for i, v := range data {
		r := (v - pred[i]) / (1.0 - denum.At(i, i))
		gcv += r * r / float64(n)
	}
	return math.Sqrt(gcv)
"""),
)
ed(F+'util.go',
("""	design := mat.NewDense(n, numFeat, nil)

	col := 0
	for i := 0; i < len(model); i++ {
		if model[i] {
			for j := 0; j < n; j++ {
				design.Set(j, col, X.At(j, i))
			}
			col++
		}
	}
	return design
""","""	design := mat.NewDense(n, numFeat, nil)
	selected := SelectedFeatures(model)
	for row := 0; row < n; row++ {
		for col, feat := range selected {
			design.Set(row, col, X.At(row, feat))
		}
	}
	return design
"""),
("""	res := make([][]int, 1)

	for r := 0; r < repeat; r++ {
		nItems := len(res)
		updatedRes := make([][]int, 0)
		for j := 0; j < nItems; j++ {
			for i := 0; i < len(values); i++ {
				newRow := append(append([]int{}, res[j]...), values[i])
				updatedRes = append(updatedRes, newRow)
			}
		}
		res = updatedRes
	}
	return res
""","""	if repeat <= 0 {
		return make([][]int, 1)
	}
	var res [][]int
	for _, head := range IterProduct(values, repeat-1) {
		for _, v := range values {
			row := make([]int, repeat)
			copy(row, head)
			row[repeat-1] = v
			res = append(res, row)
		}
	}
	return res
"""),
("""	larger := math.Max(current, float64(numPruned))
	smaller := math.Min(current, float64(numPruned))
	return larger + math.Log2(1+math.Pow(2, smaller-larger))
""","""	larger, smaller := current, float64(numPruned)
	if smaller > larger {
		larger, smaller = smaller, larger
	}
	return larger + math.Log1p(math.Exp2(smaller-larger))/math.Ln2
"""),
("""	sumW := 0.0
	for i := range aic {
		sumW += math.Exp(min - aic[i])
	}

	for i := range aic {
		w[i] = math.Exp(min-aic[i]) / sumW
	}
	return w
""","""	sumW := 0.0
	for i, v := range aic {
		w[i] = math.Exp(min - v)
		sumW += w[i]
	}
	for i := range w {
		w[i] /= sumW
	}
	return w
"""),
)
ed(F+'lassoCrdDesc.go',
("""	iterIndices := make([]int, 0, nFeat)
	for i := 0; i < nFeat; i++ {
		if i > 0 || !dset.HasBias {
			iterIndices = append(iterIndices, i)
		}
	}
""","""	first := 0
	if dset.HasBias {
		first = 1
	}
	iterIndices := make([]int, nFeat-first)
	for i := range iterIndices {
		iterIndices[i] = first + i
	}
"""),
("""			diff := math.Abs(beta[j] - betaOld[j])
			if diff > maxChange {
				maxChange = diff
			}

			if math.Abs(beta[j]) > maxCoeff {
				maxCoeff = math.Abs(beta[j])
			}
""","""			maxChange = math.Max(maxChange, math.Abs(beta[j]-betaOld[j]))
			maxCoeff = math.Max(maxCoeff, math.Abs(beta[j]))
"""),
("""		numActive := 0
		for _, j := range iterIndices {
			if math.Abs(beta[j]) > lassoCrdDescZero {
				iterIndices[numActive] = j
				numActive++
			}
		}
		iterIndices = iterIndices[:numActive]
""","""		active := make([]int, 0, len(iterIndices))
		for _, j := range iterIndices {
			if math.Abs(beta[j]) > lassoCrdDescZero {
				active = append(active, j)
			}
		}
		iterIndices = active
"""),
)
ed(F+'criteria.go',
("""	rssLcs := math.MaxFloat64
	if kLcs > 0 {
		XLcs := GetDesignMatrix(lcsMod, X)
		coeffLcs := Fit(XLcs, y)
		rssLcs = Rss(XLcs, coeffLcs, y)
	}

	rssGcs := RssTol
	nr, _ := X.Dims()
	if kGcs < nr {
		XGcs := GetDesignMatrix(gcsMod, X)
		coeffGcs := Fit(XGcs, y)
		rssGcs = Rss(XGcs, coeffGcs, y)
	}
""","""	nr, _ := X.Dims()
	rssGcs, rssLcs := RssTol, math.MaxFloat64
	if kLcs > 0 {
		rssLcs = modelRss(lcsMod, X, y)
	}
	if kGcs < nr {
		rssGcs = modelRss(gcsMod, X, y)
	}
"""),
("""// BoundsAIC calculates""","""func modelRss(model []bool, X mat.Matrix, y []float64) float64 {
	design := GetDesignMatrix(model, X)
	return Rss(design, Fit(design, y), y)
}

// BoundsAIC calculates"""),
)
ed(F+'lasso_lars.go',
("""	maxVal := 0.0
	maxIndx := 0
	for k := 0; k < v.Len(); k++ {
		if v.AtVec(k) > maxVal {
			maxVal = v.AtVec(k)
			maxIndx = k
		}
	}
	return maxVal, maxIndx
}

// tJoin""","""	return firstMax(v)
}

func firstMax(v *mat.VecDense) (float64, int) {
	maxVal := 0.0
	maxIndx := 0
	for k := 0; k < v.Len(); k++ {
		if cur := v.AtVec(k); cur > maxVal {
			maxVal, maxIndx = cur, k
		}
	}
	return maxVal, maxIndx
}

// tJoin"""),
("""	maxVal := 0.0
	maxIndx := 0
	for i := 0; i < v.Len(); i++ {
		if v.AtVec(i) > maxVal {
			maxVal = v.AtVec(i)
			maxIndx = i
		}
	}
	return maxVal, maxIndx
""","""	return firstMax(v)
"""),
("""	isActive := make([]bool, nc)
	for _, v := range active {
		isActive[v] = true
	}

""",""),
("""	beta := mat.NewVecDense(llp.c.Len(), nil)

	for i := 0; i < beta.Len(); i++ {
		beta.SetVec(i, llp.c.AtVec(i)-lamb*llp.d.AtVec(i))
	}
	return beta
""","""	var beta mat.VecDense
	beta.AddScaledVec(llp.c, -lamb, llp.d)
	return &beta
"""),
("""			tmpSelect := make([]int, len(node.Selection)+1)
			tmpSelect[0] = 0
			copy(tmpSelect[1:], node.Selection)
			node.Selection = tmpSelect

			tmpCoeff := make([]float64, len(node.Coeff)+1)
			tmpCoeff[0] = bias
			copy(tmpCoeff[1:], node.Coeff)
			node.Coeff = tmpCoeff
""","""			node.Selection = append([]int{0}, node.Selection...)
			node.Coeff = append([]float64{bias}, node.Coeff...)
"""),
)
ed(F+'lasso_cd.go',
("""	diag := mat.NewDiagDense(len(s), s)
	nr, _ := v.Dims()
	cMat := mat.NewDense(nr, 1, nil)
	cMat.Product(&v, diag, u.T(), y)
	res := mat.NewVecDense(nr, nil)
	for i := 0; i < nr; i++ {
		res.SetVec(i, cMat.At(i, 0))
	}
	return res
""","""	var tmp, res mat.VecDense
	tmp.MulVec(u.T(), y)
	for i, inv := range s {
		tmp.SetVec(i, tmp.AtVec(i)*inv)
	}
	res.MulVec(&v, &tmp)
	return &res
"""),
)
ed(F+'csvIO.go',
("""	reader := csv.NewReader(bufio.NewReader(handle))
	var dset Dataset

	lineNo := 0
	data := make([][]float64, 0)
	for {
		line, err := reader.Read()
		if err == io.EOF {
			break
		} else if err != nil {
			panic(err)
		}

		if lineNo == 0 {
			dset.Names = line
		} else {
			row := make([]float64, len(line))
			for i, v := range line {
				if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
					row[i] = fl
				}
			}
			data = append(data, row)
		}
		lineNo++
	}
""","""	lines, err := csv.NewReader(bufio.NewReader(handle)).ReadAll()
	if err != nil {
		panic(err)
	}
	var dset Dataset
	var data [][]float64
	for i, line := range lines {
		if i == 0 {
			dset.Names = line
			continue
		}
		data = append(data, parseRow(line))
	}
"""),
("""// Save dataset""","""func parseRow(line []string) []float64 {
	row := make([]float64, len(line))
	for i, v := range line {
		if fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64); err == nil {
			row[i] = fl
		}
	}
	return row
}

// Save dataset"""),
("""	for row := 0; row < len(data); row++ {
		xcol := 0
		for col := 0; col < len(data[row]); col++ {
			if col == targetCol {
				dset.Y[row] = data[row][col]
			} else {
				dset.X.Set(row, xcol, data[row][col])
				xcol++
			}
		}
	}
""","""	for row, values := range data {
		for col, v := range values {
			switch {
			case col < targetCol:
				dset.X.Set(row, col, v)
			case col == targetCol:
				dset.Y[row] = v
			default:
				dset.X.Set(row, col-1, v)
			}
		}
	}
"""),
("""	writer := csv.NewWriter(bufio.NewWriter(handle))
	nrows""","""	writer := csv.NewWriter(handle)
	nrows"""),
("""	fmt.Printf("%v\\n", jData.Nr)
""",""),
)
ed(F+'lassoPlot.go',
("""	for i, n := range p.LassoLarsNodes {
		found := false
		for j := range n.Selection {
			if n.Selection[j] == featNo {
				xys[i] = plotter.XY{X: math.Log10(n.Lamb), Y: n.Coeff[j]}
				found = true
				break
			}
		}

		if !found {
			xys[i] = plotter.XY{X: math.Log10(n.Lamb), Y: 0.0}
		}
	}
	return xys
""","""	for i, n := range p.LassoLarsNodes {
		xys[i].X = math.Log10(n.Lamb)
		for j, feat := range n.Selection {
			if feat == featNo {
				xys[i].Y = n.Coeff[j]
				break
			}
		}
	}
	return xys
"""),
("""	mostRelevant := []int{}
	for _, node := range p.LassoLarsNodes {
		for _, v := range node.Selection {
			if !ExistInt(mostRelevant, v) {
				mostRelevant = append(mostRelevant, v)
			}
		}
""","""	mostRelevant := []int{}
	seen := make(map[int]bool)
	for _, node := range p.LassoLarsNodes {
		for _, v := range node.Selection {
			if seen[v] {
				continue
			}
			seen[v] = true
			mostRelevant = append(mostRelevant, v)
		}
"""),
)
ed(F+'thresholdCov.go',
("""	mu := make([]float64, nc)
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			mu[j] += X.At(i, j) / float64(nr)
		}
	}

	cov := mat.NewDense(nc, nc, nil)
	cov.Product(X.T(), X)
	cov.Scale(1./float64(nr), cov)

	for i := 0; i < nc; i++ {
		for j := 0; j < nc; j++ {
			cov.Set(i, j, cov.At(i, j)-mu[i]*mu[j])
		}
	}
	return cov
""","""	mu := make([]float64, nc)
	for j := range mu {
		mu[j] = Mean(mat.Col(nil, j, X))
	}

	cov := mat.NewDense(nc, nc, nil)
	for i := 0; i < nc; i++ {
		for j := 0; j <= i; j++ {
			sum := 0.0
			for r := 0; r < nr; r++ {
				sum += (X.At(r, i) - mu[i]) * (X.At(r, j) - mu[j])
			}
			cov.Set(i, j, sum/float64(nr))
			cov.Set(j, i, sum/float64(nr))
		}
	}
	return cov
"""),
)
ed(F+'model.go',
("""	arrayIndex := index / 8
	reminder := index - 8*arrayIndex
	return m.bits[arrayIndex]&uint8(0x01<<uint(reminder)) == uint8(0x01<<uint(reminder))
""","""	return m.bits[index>>3]>>(uint(index)&7)&1 == 1
"""))
ed(F+'orthogonalMatchingPursuit.go',
("""		rss := 0.0
		for i := 0; i < len(ypred); i++ {
			residuals.SetVec(i, ypred[i]-y[i])
			rss += math.Pow(y[i]-ypred[i], 2)
		}
		rss = math.Sqrt(rss / float64(len(y)))
		if rss < tol {
			break
		}
""","""		for i, p := range ypred {
			residuals.SetVec(i, y[i]-p)
		}
		if mat.Norm(residuals, 2)/math.Sqrt(float64(len(y))) < tol {
			break
		}
"""),
("""	fmt.Printf("%v", res.Order)

""",""),
("""	"fmt"
""",""),
)
ed(F+'node.go',
("""	selected := make([]int, NumFeatures(n.Model))
	numInserted := 0
	for i, v := range n.Model {
		if v {
			selected[numInserted] = i
			numInserted++
		}
	}
	return""","""	selected := SelectedFeatures(n.Model)
	return"""),
)
ed(F+'normalized_dataset.go',
("""	for c := 0; c < nc; c++ {
		for r := 0; r < nr; r++ {
			tmp[r] = X.At(r, c)
		}
""","""	for c := 0; c < nc; c++ {
		mat.Col(tmp, c, X)
"""),
)
ed(F+'nestedLasso.go',
("""	iter := 0
	yCpy""","""	yCpy"""),
("""	for {
		iter++
""","""	for iter := 1; ; iter++ {
"""),
)
