package main

import (
	"fmt"
	"os"
	"path/filepath"
)

// swapStd points os.Stdout and os.Stderr at scratch files while f runs, and
// hands f the readers of what was written.
func swapStd(b *B, f func(out, err *os.File)) {
	mk := func(n string) *os.File {
		fh, e := os.Create(filepath.Join(b.Scratch, fmt.Sprintf("%s-%s-%d", b.Prop.ID, n, os.Getpid())))
		if e != nil {
			panic(e)
		}
		return fh
	}
	o, e := mk("out"), mk("err")
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = o, e
	defer func() {
		os.Stdout, os.Stderr = so, se
		for _, fh := range []*os.File{o, e} {
			fh.Close()
			os.Remove(fh.Name())
		}
	}()
	f(o, e)
}

// outTail reads what was written to fh since off.
func outTail(fh *os.File, off int64) string {
	st, err := fh.Stat()
	if err != nil {
		return "<" + err.Error() + ">"
	}
	buf := make([]byte, st.Size()-off)
	if len(buf) > 0 {
		fh.ReadAt(buf, off)
	}
	return string(buf)
}

func fsize(fh *os.File) int64 {
	st, err := fh.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}
