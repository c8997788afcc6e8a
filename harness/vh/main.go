// Command vh is the monitor harness. It is compiled inside /repo's module by
// means of a build overlay (see /verif/run.py); nothing of it lives in /repo.
//
// One process runs one shard of one property's workload. Every batch of cases
// has its own PRNG, derived from (seed, property, batch name, batch number), so
// the cases are the same however many shards there are.
package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// A Prop is one property's workload and monitor.
type Prop struct {
	ID   string
	Rule string
	Run  func(c *Ctx)
	// HangUndecided: a case that does not end is not a violation of this
	// property; it is counted as undecided.
	HangUndecided bool
}

var props = map[string]*Prop{}

func register(id, rule string, run func(c *Ctx)) {
	props[id] = &Prop{ID: id, Rule: rule, Run: run}
}

// Violation is a refutation observed by a monitor.
type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Batch  string `json:"batch"`
	Index  int    `json:"index"`
	Case   string `json:"case"`
}

// Ctx is the state of one worker process.
type Ctx struct {
	Seed     int64
	Tier     string
	Shard    int
	NShards  int
	Prop     *Prop
	OnlyName string
	OnlyIdx  int
	Skip     map[string]bool
	Scratch  string

	journal  *os.File
	seq      int64
	rec      record
	distinct map[uint64]struct{}
	nsamples int
	outFile  *os.File
	outPath  string
	curBatch string
	curIdx   int
	caseCPU  atomic.Int64
	caseSeq  atomic.Int64
	curCase  atomic.Value
	cpuLimit int64
}

// B is one batch.
type B struct {
	*Ctx
	R    *rand.Rand
	Idx  int
	desc string
	nf   int
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a quick-tier count for the tier.
func (c *Ctx) N(quick int, factor int) int {
	if c.Thorough() {
		return quick * factor
	}
	return quick
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Batch runs n batches of the workload called name; each runs in one shard.
func (c *Ctx) Batch(name string, n int, f func(b *B)) {
	for i := 0; i < n; i++ {
		if c.OnlyName != "" {
			if name != c.OnlyName || i != c.OnlyIdx {
				continue
			}
		} else if (i+int(hash64(name)%997))%c.NShards != c.Shard {
			continue
		}
		if c.Skip[fmt.Sprintf("%s#%d", name, i)] {
			continue
		}
		seed := int64(hash64(fmt.Sprintf("%d|%s|%s|%d", c.Seed, c.Prop.ID, name, i)))
		c.rec = record{Batch: name, Index: i, Counters: map[string]int64{}}
		b := &B{Ctx: c, R: rand.New(rand.NewSource(seed)), Idx: i}
		c.curBatch, c.curIdx = name, i
		b.setDesc("(batch start)")
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, isAbort := r.(abortBatch); isAbort {
						return
					}
					st := string(debug.Stack())
					b.Fail("panic", "panic: %v\n%s", r, trimStack(st))
				}
			}()
			t0 := cpuNow()
			f(b)
			if d := cpuNow() - t0; os.Getenv("VH_SLOW") != "" && d > 1e9 {
				fmt.Fprintf(os.Stderr, "SLOW %s#%d %.1f s\n", name, i, float64(d)/1e9)
			}
		}()
		c.flush()
	}
}

type abortBatch struct{}

var maxFails = 5

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	for i := 0; i < len(lines) && len(out) < 40; i++ {
		if strings.Contains(lines[i], "runtime/") || strings.Contains(lines[i], "debug.Stack") {
			continue
		}
		out = append(out, lines[i])
	}
	return strings.Join(out, "\n")
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func (b *B) setDesc(d string) {
	b.desc = d
	b.curCase.Store(d)
	b.caseSeq.Add(1)
	b.seq++
	if len(d) > 6000 {
		d = d[:6000]
	}
	rec := fmt.Sprintf("%-12d\n%s\n%d\n%s\n%s\n\x00", b.seq, b.curBatch, b.curIdx, "CASE", d)
	b.journal.WriteAt([]byte(rec), 0)
}

// Case starts a case; desc must say what is being run.
func (b *B) Case(desc string) {
	b.rec.Evals++
	b.setDesc(desc)
}

// Casef is Case with formatting.
func (b *B) Casef(format string, a ...interface{}) { b.Case(fmt.Sprintf(format, a...)) }

// Seen counts a distinct non-trivial observation.
func (b *B) Seen(sig string) {
	h := hash64(sig)
	if _, ok := b.distinct[h]; !ok {
		b.distinct[h] = struct{}{}
		b.rec.dist = binary.LittleEndian.AppendUint64(b.rec.dist, h)
		if b.nsamples < 2 || (b.nsamples < 8 && len(b.distinct)%97 == 0) {
			if len(sig) > 300 {
				sig = sig[:300] + "..."
			}
			b.nsamples++
			b.rec.Samples = append(b.rec.Samples, sig)
		}
	}
}

// Count adds to a named counter of the evidence.
func (b *B) Count(name string, n int64) { b.rec.Counters[name] += n }

// Fail records a violation. After many in one batch the batch is abandoned.
func (b *B) Fail(key, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 8000 {
		d = d[:8000] + "..."
	}
	b.rec.Violations = append(b.rec.Violations, Violation{key, d, b.curBatch, b.curIdx, b.desc})
	b.nf++
	if b.nf >= maxFails {
		panic(abortBatch{})
	}
}

// Known runs a specific recorded finding. holds reports whether the property
// holds on that specific input; when it does not, the driver prints a
// KNOWN-FINDING line if (and only if) the findings file lists key.
func (b *B) Known(key string, holds func() (bool, string)) {
	b.Case("known finding " + key)
	ok, what := false, ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				ok, what = false, fmt.Sprintf("panic: %v", r)
			}
		}()
		ok, what = holds()
	}()
	if ok {
		b.rec.KnownOK = append(b.rec.KnownOK, key)
		return
	}
	b.rec.Known = append(b.rec.Known, Violation{key, what, b.curBatch, b.curIdx, key})
}

// A record is what one finished batch observed; the result file has one per
// line, so a worker that dies loses only the batch it died in.
type record struct {
	Batch      string           `json:"batch"`
	Index      int              `json:"index"`
	Evals      int64            `json:"evals"`
	Samples    []string         `json:"samples,omitempty"`
	Counters   map[string]int64 `json:"counters,omitempty"`
	Violations []Violation      `json:"violations,omitempty"`
	Known      []Violation      `json:"known,omitempty"`
	KnownOK    []string         `json:"known_ok,omitempty"`
	Distinct   string           `json:"distinct,omitempty"`
	dist       []byte
}

func (c *Ctx) flush() {
	c.rec.Distinct = base64.StdEncoding.EncodeToString(c.rec.dist)
	data, err := json.Marshal(c.rec)
	if err != nil {
		panic(err)
	}
	c.outFile.Write(append(data, '\n'))
}

// watchdog ends the process when a single case has used far more CPU time or
// memory than any case of these workloads needs. The driver reads the marker.
func (c *Ctx) watchdog() {
	lastSeq := int64(-1)
	var start int64
	for {
		time.Sleep(200 * time.Millisecond)
		s := c.caseSeq.Load()
		now := cpuNow()
		if s != lastSeq {
			lastSeq, start = s, now
			// fall through to the memory check
		}
		why := ""
		if now-start > c.cpuLimit {
			why = fmt.Sprintf("HANG: one case used more than %d s of CPU time", c.cpuLimit/1e9)
		}
		data, err := os.ReadFile("/proc/self/statm")
		if err == nil {
			var a, rss int64
			fmt.Sscan(string(data), &a, &rss)
			if rss*int64(os.Getpagesize()) > 3<<30 {
				why = "MEMORY: the process grew past 3 GB"
			}
		}
		if why != "" {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			os.WriteFile(c.outPath+".watchdog", []byte(why+"\n"+string(buf)), 0o644)
			if c.Prop.HangUndecided {
				os.Exit(78)
			}
			os.Exit(77)
		}
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int("shard", 0, "shard")
	nshards := flag.Int("nshards", 1, "number of shards")
	out := flag.String("out", "", "result file")
	only := flag.String("only", "", "run only batch name#idx")
	skip := flag.String("skip", "", "file listing batches to skip")
	scratch := flag.String("scratch", "", "scratch directory")
	list := flag.Bool("list", false, "list properties")
	flag.IntVar(&maxFails, "maxfails", 5, "violations per batch")
	flag.Parse()
	if *list {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	debug.SetMaxStack(512 << 20)
	c := &Ctx{Seed: *seed, Tier: *tier, Shard: *shard, NShards: *nshards, Prop: p,
		Skip: map[string]bool{}, Scratch: *scratch, distinct: map[uint64]struct{}{},
		outPath: *out, cpuLimit: 60e9}
	if p.HangUndecided {
		c.cpuLimit = 6e9
	}
	if c.Scratch == "" {
		c.Scratch = filepath.Dir(*out)
	}
	if *skip != "" {
		data, err := os.ReadFile(*skip)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, s := range strings.Split(string(data), "\n") {
			if s != "" {
				c.Skip[s] = true
			}
		}
	}
	if *only != "" {
		k := strings.LastIndex(*only, "#")
		c.OnlyName = (*only)[:k]
		fmt.Sscan((*only)[k+1:], &c.OnlyIdx)
	}
	j, err := os.Create(*out + ".journal")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	c.journal = j
	c.outFile, err = os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	go c.watchdog()
	p.Run(c)
	os.WriteFile(*out+".done", []byte(p.Rule), 0o644)
}
