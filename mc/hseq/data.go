//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	fs "github.com/davidkleiven/goselect/featselect"
	vc "github.com/davidkleiven/goselect/verifcommon"
)

func init() {
	props["D01"] = d01
	props["D02"] = d02
	props["D03"] = d03
}

// table is a CSV file: all columns, one of them the target
type table struct {
	names  []string
	rows   [][]float64
	target int // column from the front
}

// tableNames are names of columns, some of them unusual
var tableNames = []string{"x", "y z", "a,b", "\"q\"", "m", "ü", "1", "e-5", "n8", "n9", "#c", "nan", "// z", "a;b", "it's", "t\tt", "%d", "\\n", strings.Repeat("long", 60)}

func makeTable(rows, cols, target int, alphabet []float64, seed uint64) *table {
	h := vc.NewHash(seed*1009 + uint64(rows*31+cols))
	t := &table{target: target}
	for j := 0; j < cols; j++ {
		t.names = append(t.names, tableNames[(j*(1+int(seed)/16)+int(seed))%len(tableNames)]+[]string{"", "1", "_"}[h.N(3)])
	}
	for i := 0; i < rows; i++ {
		r := make([]float64, cols)
		for j := range r {
			r[j] = alphabet[h.N(len(alphabet))]
		}
		t.rows = append(t.rows, r)
	}
	return t
}

func (t *table) x(i, j int) float64 {
	if j >= t.target {
		j++
	}
	return t.rows[i][j]
}

func (t *table) dataset() *fs.Dataset {
	m := vc.NewMat(len(t.rows), len(t.names)-1)
	y := make([]float64, m.R)
	for i := range t.rows {
		y[i] = t.rows[i][t.target]
		for j := 0; j < m.C; j++ {
			m.Set(i, j, t.x(i, j))
		}
	}
	return &fs.Dataset{X: m.Dense(), Y: y, Names: append([]string{}, t.names...), TargetCol: t.target}
}

// compare tells what is wrong with a dataset
func (t *table) compare(d *fs.Dataset, tol float64) string {
	if d == nil {
		return "no dataset"
	}
	nr, nc := d.X.Dims()
	if nr != len(t.rows) || nc != len(t.names)-1 || len(d.Y) != nr {
		return fmt.Sprintf("%dx%d elements and %d targets instead of %dx%d", nr, nc, len(d.Y), len(t.rows), len(t.names)-1)
	}
	if d.TargetCol != t.target {
		return fmt.Sprintf("target column %d instead of %d", d.TargetCol, t.target)
	}
	if len(d.Names) != len(t.names) {
		return fmt.Sprintf("%d names instead of %d", len(d.Names), len(t.names))
	}
	for j, n := range t.names {
		if d.Names[j] != n {
			return fmt.Sprintf("name %d is %q instead of %q", j, d.Names[j], n)
		}
	}
	close := func(a, b float64) bool { return a == b || math.Abs(a-b) <= tol }
	for i := range t.rows {
		if !close(d.Y[i], t.rows[i][t.target]) {
			return fmt.Sprintf("target %d is %g instead of %g", i, d.Y[i], t.rows[i][t.target])
		}
		for j := 0; j < nc; j++ {
			if !close(d.X.At(i, j), t.x(i, j)) {
				return fmt.Sprintf("element %d %d is %g instead of %g", i, j, d.X.At(i, j), t.x(i, j))
			}
		}
	}
	return ""
}

func (t *table) text(pad, quote int, nl string) string {
	var sb strings.Builder
	cell := func(s string) string {
		if strings.ContainsAny(s, ",\"\n") || quote == 2 {
			return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
		}
		return s
	}
	for j, n := range t.names {
		if j > 0 {
			sb.WriteString(",")
		}
		sb.WriteString(cell(n))
	}
	sb.WriteString(nl)
	for i, r := range t.rows {
		for j, v := range r {
			if j > 0 {
				sb.WriteString(",")
			}
			s := strconv.FormatFloat(v, "gef"[(i+j)%3], -1, 64)
			switch pad {
			case 1:
				s = " " + s
			case 2:
				s = s + "  "
			case 3:
				s = "\t" + s + " "
			}
			if quote == 1 && (i+j)%2 == 0 || quote == 2 {
				s = "\"" + s + "\""
			}
			sb.WriteString(s)
		}
		if i < len(t.rows)-1 || nl != "\r\n" {
			sb.WriteString(nl) // the last line may lack its end
		}
	}
	return sb.String()
}

var cellAlphabet = []float64{0, 1, -1, 0.5, -2.25, 1e-5, 123456.789, 1e10, -3e-8, 7}

func d01(c *vc.Ctx) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "csv")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	maxC := c.Pick(6, 9)
	c.Group("reading")
	c.Bound("tables with 1 to 6 rows and 2 to %d columns, every target column from either end, padding, quotes, line ends", maxC)
	for cols := 2; cols <= maxC; cols++ {
		for rows := 1; rows <= 6; rows++ {
			for target := -cols; target < cols; target++ {
				for seed := uint64(0); seed < uint64(c.Pick(8, 32)); seed++ {
					c.Case(fmt.Sprintf("%dx%d-target%d-%d", rows, cols, target, seed), func() {
						t := makeTable(rows, cols, (target+cols)%cols, cellAlphabet, seed)
						for pad := 0; pad < 4; pad++ {
							for quote := 0; quote < 3; quote++ {
								nl := []string{"\n", "\r\n"}[(pad+quote)%2]
								txt := t.text(pad, quote, nl)
								c.Input(func() string { return fmt.Sprintf("target %d, %q", target, txt) })
								m := t.compare(fs.ParseCSV(strings.NewReader(txt), target), 0)
								c.Check(m == "", "%s", m)
								c.Exec(1)
								c.State(1)
								c.Step(rows)
							}
						}
						fn := filepath.Join(dir, "in.csv")
						txt := t.text(0, 0, "\n")
						if err := os.WriteFile(fn, []byte(txt), 0644); err != nil {
							panic(err)
						}
						m := t.compare(fs.ReadCSV(fn, target), 0)
						c.Check(m == "", "from a file: %s", m)
						after, _ := os.ReadFile(fn)
						c.Check(string(after) == txt, "reading modified the file")
					})
				}
			}
		}
	}
	c.Group("names")
	unusual := append(append([]string{}, tableNames...), " x", "x ", " x ", "\tx", "X", "two\nlines", "'x'", "x\"", "", "0x1", "é ")
	c.Bound("every ordered pair of %d unusual names as the first two of three columns, every target, read and written", len(unusual))
	for a, na := range unusual {
		c.Case(fmt.Sprint(a), func() {
			for b, nb := range unusual {
				for target := 0; target < 3; target++ {
					t := makeTable(2, 3, target, cellAlphabet, uint64(a+b))
					t.names = []string{na, nb, "last"}
					txt := t.text(0, 0, "\n")
					c.Input(func() string { return fmt.Sprintf("target %d, %q", target, txt) })
					m := t.compare(fs.ParseCSV(strings.NewReader(txt), target), 0)
					c.Check(m == "", "%s", m)
					var buf bytes.Buffer
					t.dataset().SaveHandle(&buf)
					m = t.compare(fs.ParseCSV(&buf, target), 0.5000001e-6)
					c.Check(m == "", "written and read: %s", m)
					c.Exec(2)
					c.State(1)
					c.Step(2)
				}
			}
		})
	}
	c.Group("torn files")
	c.Bound("every prefix of tables with up to 3 rows and 4 columns, every target column; rows that are too long or too short; a missing file")
	for cols := 2; cols <= 4; cols++ {
		for rows := 1; rows <= 3; rows++ {
			for target := 0; target < cols; target++ {
				c.Case(fmt.Sprintf("%dx%d-target%d", rows, cols, target), func() {
					torn(c, makeTable(rows, cols, target, cellAlphabet, uint64(rows)), target)
				})
			}
		}
	}
	c.Case("missing", func() {
		c.Exec(1)
		c.State(1)
		var d *fs.Dataset
		printed(func() { d = fs.ReadCSV(filepath.Join(dir, "none.csv"), 0) })
		c.Check(d == nil, "a missing file gives %v", d)
		if _, err := os.Stat(filepath.Join(dir, "none.csv")); err == nil {
			c.Check(false, "reading a missing file created it")
		}
	})
	c.Group("values")
	c.Bound("every arrangement of 5 values in 2x2 and 1x3 tables")
	vals := []float64{0, -1.5, 2e-7, 3e9, 42}
	for _, sh := range [][2]int{{2, 2}, {1, 3}} {
		c.Case(fmt.Sprint(sh), func() {
			sequences(len(vals), sh[0]*sh[1], func(s []int) {
				for target := -sh[1]; target < sh[1]; target++ {
					t := makeTable(sh[0], sh[1], (target+sh[1])%sh[1], cellAlphabet, 3)
					for i, v := range s {
						t.rows[i/sh[1]][i%sh[1]] = vals[v]
					}
					txt := t.text(0, 0, "\n")
					c.Input(func() string { return fmt.Sprintf("target %d, %q", target, txt) })
					m := t.compare(fs.ParseCSV(strings.NewReader(txt), target), 0)
					c.Check(m == "", "%s", m)
					var b bytes.Buffer
					t.dataset().SaveHandle(&b)
					m = t.compare(fs.ParseCSV(&b, target), 0.5000001e-6)
					c.Check(m == "", "written and read: %s", m)
					c.Exec(2)
					c.State(1)
					c.Step(2)
				}
			})
		})
	}
	c.Group("number formats")
	forms := []struct {
		text string
		v    float64
	}{{"+1", 1}, {"+0.25", 0.25}, {"1E3", 1e3}, {"1e+03", 1e3}, {"2.5E-7", 2.5e-7}, {".5", 0.5}, {"-.5", -0.5}, {"5.", 5}, {"007", 7}, {"-0", 0}, {"1e-300", 1e-300}, {"-1.5e300", -1.5e300},
		{"3.14159265358979323846264338", math.Pi}, {"12345678901234567890", 12345678901234567890}, {"0.1", 0.1}, {"-42", -42}, {"+1.5e+2", 150}, {"1e5", 1e5}, {"5e-324", 5e-324}, {"100000000", 1e8},
		{"Inf", inf}, {"-inf", -inf}, {"+Infinity", inf}, {"0x1p-2", 0.25}}
	c.Bound("every pair of %d ways to write a number in adjacent cells of a 2x3 table, every target column, with and without blanks and quotes", len(forms))
	for a := range forms {
		c.Case(forms[a].text, func() {
			for b := range forms {
				for target := 0; target < 3; target++ {
					for style := 0; style < 3; style++ {
						t := makeTable(2, 3, target, cellAlphabet, 1)
						t.names = []string{"a", "b", "c"}
						k := (a + b + style) % 4
						row, col := k/2, k%2
						cells := [2][3]string{{"1", "2", "3"}, {"4", "5", "6"}}
						t.rows = [][]float64{{1, 2, 3}, {4, 5, 6}}
						for q, f := range []int{a, b} {
							cells[row][col+q] = []string{"%s", " %s ", "\"%s\""}[style]
							cells[row][col+q] = fmt.Sprintf(cells[row][col+q], forms[f].text)
							t.rows[row][col+q] = forms[f].v
						}
						txt := "a,b,c\n" + strings.Join(cells[0][:], ",") + "\n" + strings.Join(cells[1][:], ",") + "\n"
						c.Input(func() string { return fmt.Sprintf("target %d, %q", target, txt) })
						m := t.compare(fs.ParseCSV(strings.NewReader(txt), target), 0)
						c.Check(m == "", "%s", m)
						c.Exec(1)
						c.State(1)
						c.Step(2)
					}
				}
			}
		})
	}
	c.Group("round trips")
	c.Bound("tables with up to 4100 rows and %d columns, every target column, written and read", maxC)
	for cols := 2; cols <= maxC; cols++ {
		for target := 0; target < cols; target++ {
			for _, rows := range []int{1, 2, 3, 10, 40, 63, 64, 65, 128, 129, 256, 257, 300, 513, 1025, 4100} {
				for seed := uint64(0); seed < uint64(c.Pick(12, 80)); seed++ {
					if rows > 40 && (seed > 3 || rows > 500 && cols%3 > 0) {
						continue
					}
					c.Case(fmt.Sprintf("%dx%d-target%d-%d", rows, cols, target, seed), func() {
						t := makeTable(rows, cols, target, cellAlphabet, seed+50)
						c.Input(func() string { return t.text(0, 0, "\n") })
						ds := t.dataset()
						var b bytes.Buffer
						ds.SaveHandle(&b)
						m := t.compare(ds, 0)
						c.Check(m == "", "writing changed the dataset: %s", m)
						txt := b.String()
						tg := target
						if seed%2 == 1 {
							tg -= cols
						}
						m = t.compare(fs.ParseCSV(&b, tg), 0.5000001e-6)
						c.Check(m == "", "%s (written as %.300q)", m, txt)
						fn := filepath.Join(dir, "out.csv")
						ds.Save(fn)
						got, _ := os.ReadFile(fn)
						c.Check(string(got) == txt, "Save and SaveHandle differ")
						m = t.compare(fs.ReadCSV(fn, tg), 0.5000001e-6)
						c.Check(m == "", "from a file: %s", m)
						c.Exec(2)
						c.State(1)
						c.Step(4)
					})
				}
			}
		}
	}
}

// torn reads every prefix of a table, and tables with a cell too many or too few
func torn(c *vc.Ctx, t *table, target int) {
	txt := t.text(0, 0, "\n")
	read := func(s string) (d *fs.Dataset) {
		c.Input(func() string { return fmt.Sprintf("target %d, %q", target, s) })
		c.Exec(1)
		c.State(1)
		defer func() {
			if recover() != nil {
				d = nil
			}
		}()
		return fs.ParseCSV(strings.NewReader(s), target)
	}
	lines := strings.SplitAfter(txt, "\n")
	head := len(lines[0])
	for n := 0; n < len(txt); n++ {
		full := strings.Count(txt[:n], "\n") - 1
		fields := strings.Count(txt[strings.LastIndex(txt[:n], "\n")+1:n], ",") + 1
		torn := n > head && txt[n-1] != '\n' && fields < len(t.names)
		d := read(txt[:n])
		c.Step(1)
		if d == nil {
			c.Seen("refused")
			continue
		}
		c.Seen("a torn table is read")
		c.Check(!torn, "a table whose last row has %d of %d values is read", fields, len(t.names))
		for r := 0; r < full && r < len(d.Y); r++ {
			k := 0
			for j, v := range t.rows[r] {
				if j == target {
					c.Check(d.Y[r] == v, "row %d: target %v became %v", r, v, d.Y[r])
				} else {
					c.Check(d.X.At(r, k) == v, "row %d column %d: %v became %v", r, j, v, d.X.At(r, k))
					k++
				}
			}
		}
		nr, _ := d.X.Dims()
		c.Check(full <= nr && nr <= full+1, "%d complete rows gave %d", full, nr)
	}
	for i := range lines {
		if lines[i] == "" {
			continue
		}
		for _, add := range []bool{true, false} {
			keep := lines[i]
			l := strings.TrimSuffix(keep, "\n")
			if add {
				l += ",7"
			} else {
				l = l[:strings.LastIndex(l, ",")]
			}
			lines[i] = l + "\n"
			c.Check(read(strings.Join(lines, "")) == nil, "a table in which a line has another number of values is read: %q", strings.Join(lines, ""))
			lines[i] = keep
		}
	}
}

func d02(c *vc.Ctx) {
	maxC := c.Pick(6, 7)
	c.Group("names and subsets")
	c.Bound("all target columns, all ordered selections of up to 4 features (all orders, repeated ones left out) of datasets with 2 to %d columns", maxC)
	for cols := 2; cols <= maxC; cols++ {
		for target := 0; target < cols; target++ {
			for _, rows := range []int{1, 3} {
				c.Case(fmt.Sprintf("%dx%d-target%d", rows, cols, target), func() {
					t := makeTable(rows, cols, target, []float64{1, 2, 3, 4.5, -6}, uint64(target))
					for j := range t.names {
						t.names[j] = fmt.Sprintf("n%d", (j*7)%13)
						if rows == 3 {
							// different only in case, blanks or length
							t.names[j] = []string{"x", "X", "xx", "x ", " x", "xX", "Xx", "x1", "x10"}[(j+target)%9]
						}
					}
					c.Input(func() string { return t.text(0, 0, "\n") })
					ds := t.dataset()
					feat := func(j int) string {
						if j >= target {
							return t.names[j+1]
						}
						return t.names[j]
					}
					for j := 0; j < cols-1; j++ {
						c.Check(ds.GetFeatName(j) == feat(j), "feature %d is called %q instead of %q", j, ds.GetFeatName(j), feat(j))
						c.Check(ds.FeatNoByName(feat(j)) == j, "feature %q has number %d instead of %d", feat(j), ds.FeatNoByName(feat(j)), j)
					}
					c.Check(panics(func() { ds.FeatNoByName("no such name") }), "an unknown name has a number")
					c.Check(panics(func() { ds.FeatNoByName(t.names[target]) }), "the target has the number of a feature")
					p := cols - 1
					for mask := 1; mask < 1<<uint(p); mask++ {
						sel := vc.SelOf(mask, p)
						orders := [][]int{sel}
						if len(sel) <= 4 {
							orders = nil
							permutations(sel, func(q []int) { orders = append(orders, q) })
						}
						for _, o := range orders {
							keep := append([]int{}, o...)
							sub := ds.GetSubset(o)
							c.Check(vc.EqInts(keep, o), "the selection was modified")
							// a subset has its target last
							st := &table{target: len(o)}
							for _, j := range o {
								st.names = append(st.names, feat(j))
							}
							st.names = append(st.names, t.names[target])
							for i := range t.rows {
								r := []float64{}
								for _, j := range o {
									r = append(r, t.x(i, j))
								}
								st.rows = append(st.rows, append(r, t.rows[i][target]))
							}
							if sub.TargetCol < 0 || sub.TargetCol > len(o) {
								c.Fail("the subset has target column %d", sub.TargetCol)
							}
							m := st.compare(sub, 0)
							c.Check(m == "", "subset %v: %s", o, m)
							for k, j := range o {
								c.Check(sub.GetFeatName(k) == feat(j) && sub.FeatNoByName(feat(j)) == k, "subset %v: feature %d is called %q", o, k, sub.GetFeatName(k))
							}
							// no shared memory
							sub.X.Set(0, 0, 77)
							sub.Y[0] = 78
							sub.Names[0] = "other"
							m = t.compare(ds, 0)
							c.Check(m == "", "the subset shares memory with the dataset: %s", m)
							c.Exec(1)
							c.State(1)
							c.Step(1)
						}
					}
				})
			}
		}
	}
	c.Group("large subsets")
	c.Bound("65 to 1100 rows, 4 to 6 columns; 2 rows, 34 to 300 columns; every target column at an end or in the middle; subsets of the first, the last, every second, all features and all in descending order")
	for _, sh := range [][2]int{{65, 4}, {127, 5}, {128, 4}, {129, 6}, {255, 4}, {256, 4}, {257, 5}, {300, 4}, {513, 4}, {1025, 5}, {1100, 4}, {2, 34}, {2, 66}, {2, 130}, {2, 300}} {
		rows, cols := sh[0], sh[1]
		for _, target := range []int{0, 1, cols / 2, cols - 1} {
			c.Case(fmt.Sprintf("%dx%d-target%d", rows, cols, target), func() {
				t := makeTable(rows, cols, target, []float64{1, 2, 3, 4.5, -6}, uint64(target))
				for i := range t.rows {
					for j := range t.rows[i] {
						t.rows[i][j] += float64(i*cols + j)
					}
				}
				for j := range t.names {
					t.names[j] = fmt.Sprintf("n%d", (j*7)%313)
				}
				feat := func(j int) string {
					if j >= target {
						return t.names[j+1]
					}
					return t.names[j]
				}
				ds := t.dataset()
				p := cols - 1
				for kind := 0; kind < 5; kind++ {
					var o []int
					for j := 0; j < p; j++ {
						if kind == 0 && j == 0 || kind == 1 && j == p-1 || kind == 2 && j%2 == 1 || kind == 3 {
							o = append(o, j)
						}
						if kind == 4 {
							o = append(o, p-1-j)
						}
					}
					c.Input(func() string {
						return fmt.Sprintf("%d rows, %d columns, target %d, features %v", rows, cols, target, o)
					})
					sub := ds.GetSubset(o)
					st := &table{target: len(o)}
					for _, j := range o {
						st.names = append(st.names, feat(j))
					}
					st.names = append(st.names, t.names[target])
					for i := range t.rows {
						r := []float64{}
						for _, j := range o {
							r = append(r, t.x(i, j))
						}
						st.rows = append(st.rows, append(r, t.rows[i][target]))
					}
					c.Check(sub.TargetCol == len(o), "the subset has target column %d", sub.TargetCol)
					m := st.compare(sub, 0)
					c.Check(m == "", "%s", m)
					m = st.compare(sub.Copy(), 0)
					c.Check(m == "", "copy: %s", m)
					for k, j := range o {
						c.Check(sub.GetFeatName(k) == feat(j) && sub.FeatNoByName(feat(j)) == k, "feature %d is called %q", k, sub.GetFeatName(k))
						c.Check(ds.FeatNoByName(feat(j)) == j, "feature %q has number %d instead of %d", feat(j), ds.FeatNoByName(feat(j)), j)
					}
					c.Exec(1)
					c.State(1)
					c.Step(1)
				}
			})
		}
	}
	c.Group("copies and equality")
	c.Bound("all single changes of a dataset with up to 5 columns and 3 rows")
	for cols := 2; cols <= 5; cols++ {
		for target := 0; target < cols; target++ {
			for rows := 1; rows <= 3; rows++ {
				c.Case(fmt.Sprintf("%dx%d-target%d", rows, cols, target), func() {
					t := makeTable(rows, cols, target, []float64{1, 2, 3, 4.5, -6}, uint64(target)+9)
					c.Input(func() string { return t.text(0, 0, "\n") })
					ds := t.dataset()
					eq := func(a, b *fs.Dataset, want bool, what string) {
						c.Check(a.IsEqual(b) == want && b.IsEqual(a) == want, "IsEqual is %v and %v for %s", a.IsEqual(b), b.IsEqual(a), what)
						c.Exec(1)
						c.State(1)
						c.Step(2)
					}
					cp := ds.Copy()
					m := t.compare(cp, 0)
					c.Check(m == "", "the copy differs: %s", m)
					eq(ds, cp, true, "a copy")
					change := func(what string, f func(d *fs.Dataset), want bool) {
						o := ds.Copy()
						f(o)
						m := t.compare(ds, 0)
						c.Check(m == "", "a copy shares memory (%s): %s", what, m)
						eq(ds, o, want, what)
					}
					for i := 0; i < rows; i++ {
						for j := 0; j < cols-1; j++ {
							change("another element", func(d *fs.Dataset) { d.X.Set(i, j, d.X.At(i, j)+1e-6) }, false)
							change("an element off by 1e-12", func(d *fs.Dataset) { d.X.Set(i, j, d.X.At(i, j)+1e-12) }, true)
						}
						off := func(v float64) float64 { return 3e-10 * math.Max(1, math.Abs(v)) }
						for j := 0; j < cols-1; j++ {
							change("an element off by 3e-10", func(d *fs.Dataset) { d.X.Set(i, j, d.X.At(i, j)-off(d.X.At(i, j))) }, false)
							change("an element off by 5e-11", func(d *fs.Dataset) { d.X.Set(i, j, d.X.At(i, j)-5e-11) }, true)
						}
						change("a target value off by 3e-10", func(d *fs.Dataset) { d.Y[i] += off(d.Y[i]) }, false)
						change("a target value off by 5e-11", func(d *fs.Dataset) { d.Y[i] += 5e-11 }, true)
						change("another target value", func(d *fs.Dataset) { d.Y[i] -= 1e-6 }, false)
						change("a target value off by 1e-12", func(d *fs.Dataset) { d.Y[i] -= 1e-12 }, true)
					}
					for j := 0; j < cols; j++ {
						change("another name", func(d *fs.Dataset) { d.Names[j] += "x" }, false)
						if j != target {
							change("another target column", func(d *fs.Dataset) { d.TargetCol = j }, false)
						}
					}
					change("one name more", func(d *fs.Dataset) { d.Names = append(d.Names, "z") }, false)
					eq(ds, makeTable(rows+1, cols, target, []float64{1}, 1).dataset(), false, "more rows")
					eq(ds, makeTable(rows, cols+1, target, []float64{1}, 1).dataset(), false, "more columns")
				})
			}
		}
	}
	manyRows(c)
	histories(c, histData(), histD02)
}

// manyRows compares larger datasets that differ in one value
func manyRows(c *vc.Ctx) {
	c.Group("equality of larger datasets")
	c.Bound("51 to 300 rows, every single value changed; every single name of up to 70 columns")
	for _, sh := range [][2]int{{51, 3}, {70, 4}, {130, 2}, {300, 3}, {2, 70}, {3, 40}} {
		c.Case(fmt.Sprintf("%dx%d", sh[0], sh[1]), func() {
			t := makeTable(sh[0], sh[1], sh[0]%sh[1], []float64{1, 2, 3, 4.5, -6}, 9)
			ds := t.dataset()
			o := ds.Copy()
			m := t.compare(o, 0)
			c.Check(m == "", "the copy differs: %s", m)
			c.Check(ds.IsEqual(o), "a copy is not equal")
			try := func(what string, i, j int) {
				c.Input(func() string {
					return fmt.Sprintf("%d rows, %d columns, another %s at %d %d", sh[0], sh[1], what, i, j)
				})
				c.Check(!ds.IsEqual(o) && !o.IsEqual(ds), "another %s at %d %d does not matter", what, i, j)
				c.Exec(1)
				c.State(1)
				c.Step(2)
			}
			for i := 0; i < sh[0]; i++ {
				o.Y[i] += 0.5
				try("target", i, 0)
				o.Y[i] -= 0.5
				for j := 0; j < sh[1]-1; j++ {
					o.X.Set(i, j, o.X.At(i, j)+0.5)
					try("value", i, j)
					o.X.Set(i, j, o.X.At(i, j)-0.5)
				}
			}
			for j := range o.Names {
				keep := o.Names[j]
				o.Names[j] = "other"
				try("name", 0, j)
				o.Names[j] = keep
			}
			c.Check(ds.IsEqual(o) && t.compare(ds, 0) == "", "the changes were not undone")
		})
	}
}

func d03(c *vc.Ctx) {
	vals := append([]float64{math.Copysign(0, -1)}, oddFloats...)
	sub := func(a, b *fs.Dataset) string {
		if b == nil || b.X == nil {
			return "no dataset"
		}
		x, y := vc.FromDense(a.X), vc.FromDense(b.X)
		switch {
		case x.R != y.R || x.C != y.C:
			return fmt.Sprintf("%dx%d became %dx%d", x.R, x.C, y.R, y.C)
		case !vc.SameBits(x.D, y.D):
			return fmt.Sprintf("%v became %v", x, y)
		case !vc.SameBits(a.Y, b.Y):
			return fmt.Sprintf("target %v became %v", a.Y, b.Y)
		case a.TargetCol != b.TargetCol || strings.Join(a.Names, "|") != strings.Join(b.Names, "|") || len(a.Names) != len(b.Names):
			return fmt.Sprintf("names %q, target column %d became %q, %d", a.Names, a.TargetCol, b.Names, b.TargetCol)
		}
		return ""
	}
	c.Group("datasets")
	c.Bound("1 to 6 rows, 2 to 6 columns, every target column; 33 to 1025 rows or columns; values out of %d", len(vals))
	type size struct{ rows, cols, seeds int }
	var sizes []size
	for cols := 2; cols <= 6; cols++ {
		for rows := 1; rows <= 6; rows++ {
			sizes = append(sizes, size{rows, cols, c.Pick(16, 160)})
		}
	}
	for _, n := range []int{33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025} {
		sizes = append(sizes, size{n, 3, 2}, size{2, n, 1})
	}
	for _, sz := range sizes {
		rows, cols := sz.rows, sz.cols
		{
			for target := 0; target < cols; target++ {
				if cols > 6 && target > 1 && target != cols/2 && target != cols-1 {
					continue
				}
				for seed := uint64(0); seed < uint64(sz.seeds); seed++ {
					c.Case(fmt.Sprintf("%dx%d-target%d-%d", rows, cols, target, seed), func() {
						t := makeTable(rows, cols, target, vals, seed+7)
						c.Input(func() string { return t.text(0, 0, "\n") })
						ds := t.dataset()
						if seed%2 == 1 {
							ds.X = vc.FromDense(ds.X).View()
						}
						b, err := json.Marshal(ds)
						c.Check(err == nil, "cannot write: %v", err)
						m := t.compare(ds, 0)
						c.Check(m == "", "writing changed the dataset: %s", m)
						got := makeTable(2, 3, 1, vals, 1).dataset()
						if seed%2 == 0 {
							got = &fs.Dataset{}
						}
						c.Check(json.Unmarshal(b, got) == nil, "cannot read %s", b)
						m = sub(ds, got)
						c.Check(m == "", "%s", m)
						if rows < 4 && cols < 7 && seed < 2 {
							for n := 0; n < len(b); n++ {
								r := makeTable(2, 3, 1, vals, 1).dataset()
								c.Check(json.Unmarshal(b[:n], r) != nil, "a torn dataset is read: %q", b[:n])
							}
						}
						c.Exec(1)
						c.State(1)
						c.Step(2)
					})
				}
			}
		}
	}
	c.Group("paths")
	c.Bound("all paths with up to 3 nodes and selections of 3 features, values out of %d; written as value and pointer, read from bytes and file", len(vals))
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "json")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	for n := 0; n <= 3; n++ {
		for first := 0; first < min(8, power(8, n)); first++ {
			c.Case(fmt.Sprintf("n%d-%b", n, first), func() {
				i := 0
				sequences(8, n, func(s []int) {
					if n > 0 && s[0] != first {
						return
					}
					i++
					t := makeTable(1+i%4, 4, i%4, vals, uint64(i))
					p := fs.LassoLarsPath{Dset: t.dataset()}
					for k, mask := range s {
						sel := vc.SelOf(mask, 3)
						co := make([]float64, len(sel))
						for q := range co {
							co[q] = vals[(i+k*3+q*5)%len(vals)]
						}
						p.LassoLarsNodes = append(p.LassoLarsNodes, fs.NewLassoLarsNode(co, vals[(i*3+k)%len(vals)], sel))
						p.Aicc = append(p.Aicc, vals[(i+k)%len(vals)])
						p.Bic = append(p.Bic, vals[(i+k*7)%len(vals)])
					}
					var b []byte
					var err error
					if i%2 == 0 {
						b, err = json.Marshal(p)
					} else {
						b, err = json.Marshal(&p)
					}
					c.Check(err == nil, "cannot write: %v", err)
					c.Input(func() string { return string(b) })
					fn := filepath.Join(dir, fmt.Sprintf("%d-%d.json", os.Getpid(), i%2))
					if err := os.WriteFile(fn, b, 0644); err != nil {
						panic(err)
					}
					for _, g := range []*fs.LassoLarsPath{fs.LassoLarsPathFromBytes(b), fs.LassoLarsPathFromJSON(fn)} {
						m := sub(p.Dset, g.Dset)
						c.Check(m == "", "%s", m)
						c.Check(vc.SameBits(p.Aicc, g.Aicc) && vc.SameBits(p.Bic, g.Bic), "criteria %v %v became %v %v", p.Aicc, p.Bic, g.Aicc, g.Bic)
						c.Check(len(g.LassoLarsNodes) == n, "%d nodes became %d", n, len(g.LassoLarsNodes))
						for k, nd := range g.LassoLarsNodes {
							o := p.LassoLarsNodes[k]
							c.Check(vc.SameBits([]float64{o.Lamb}, []float64{nd.Lamb}) && vc.EqInts(o.Selection, nd.Selection) && vc.SameBits(o.Coeff, nd.Coeff), "node %v became %v", *o, *nd)
						}
						c.Exec(1)
						c.Step(2)
					}
					if i%16 == 3 {
						for n := 0; n < len(b); n++ {
							var r fs.LassoLarsPath
							c.Check(json.Unmarshal(b[:n], &r) != nil, "a torn path is read: %q", b[:n])
							var g *fs.LassoLarsPath
							if !panics(func() { g = fs.LassoLarsPathFromBytes(b[:n]) }) && g != nil {
								c.Check(len(g.LassoLarsNodes) == 0 && len(g.Aicc) == 0, "a torn path with %d nodes gives one with %d", len(p.LassoLarsNodes), len(g.LassoLarsNodes))
							}
							c.Exec(1)
						}
					}
					c.State(1)
				})
			})
		}
	}
	c.Group("nodes")
	c.Bound("new nodes copy their arguments")
	c.Case("copy", func() {
		co, sel := []float64{1, 2}, []int{3, 4}
		n := fs.NewLassoLarsNode(co, 0.5, sel)
		co[0], sel[0] = 9, 9
		c.Check(n.Coeff[0] == 1 && n.Selection[0] == 3, "a node shares memory with the caller")
		c.Check(panics(func() { fs.NewLassoLarsNode([]float64{1}, 1, []int{1, 2}) }), "different lengths are accepted")
		c.Exec(1)
		c.Step(1)
		c.State(1)
	})
}
