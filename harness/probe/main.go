package main

import (
	"bufio"
	"fmt"
	"os"
	"time"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
)

// reads lines; "!" resets. prints InputForm and FullForm
func main() {
	es := expreduce.NewEvalState()
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if l == "!" {
			es = expreduce.NewEvalState()
			continue
		}
		done := make(chan bool, 1)
		go func() {
			defer func() { done <- true }()
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("%-40s PANIC %v\n", l, r)
				}
			}()
			t := time.Now()
			r := expreduce.EvalInterp(l, es)
			es.ProcessTopLevelResult(r, r)
			d := time.Since(t)
			c := ""
			if d > 50*time.Millisecond {
				c = d.String()
			}
			in := r.StringForm(expreduce.ActualStringFormArgsFull("InputForm", es))
			fmt.Printf("%-40s => %s   %s\n", l, in, c)
		}()
		select {
		case <-done:
		case <-time.After(4 * time.Second):
			fmt.Printf("%-40s TIMEOUT\n", l)
			es = expreduce.NewEvalState()
		}
		_ = atoms.NewInt
	}
}
