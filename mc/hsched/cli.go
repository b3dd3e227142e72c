//go:build go1.22

package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/davidkleiven/goselect/cmd"
	vc "github.com/davidkleiven/goselect/verifcommon"
)

// execute runs the command line tool in this process
func execute(args ...string) {
	old := os.Args
	os.Args = append([]string{"goselect"}, args...)
	defer func() { os.Args = old }()
	cmd.Execute()
}

// csvText writes a dataset with the target in a given column
func csvText(d *vc.Data, target int) string {
	var sb strings.Builder
	p := d.X.C
	k := 0
	for j := 0; j <= p; j++ {
		if j > 0 {
			sb.WriteString(",")
		}
		if j == target {
			sb.WriteString("goal")
		} else {
			sb.WriteString("f" + strconv.Itoa(k))
			k++
		}
	}
	sb.WriteString("\n")
	for i := 0; i < d.X.R; i++ {
		k := 0
		for j := 0; j <= p; j++ {
			if j > 0 {
				sb.WriteString(",")
			}
			v := d.Y[i]
			if j != target {
				v = d.X.At(i, k)
				k++
			}
			sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func writeTable(fn string, d *vc.Data, target int) {
	if err := os.WriteFile(fn, []byte(csvText(d, target)), 0644); err != nil {
		panic(err)
	}
}
