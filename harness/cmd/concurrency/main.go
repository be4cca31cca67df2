// Command concurrency checks X01: it runs the workloads of the other checks on
// many goroutines at once under the race detector.
package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"

	"verifharness/h"
	"verifharness/w/blockcache"
	compression "verifharness/w/compression"
	"verifharness/w/core"
	"verifharness/w/driver"
	fat "verifharness/w/fat"
	fat8 "verifharness/w/fat8"
	"verifharness/w/stream"
)

var areas = [][]*h.Prop{compression.Props(), blockcache.Props(), stream.Props(), driver.Props(), fat8.Props(), fat.Props(), core.Props()}

func main() {
	all := []*h.Prop{{ID: "X01", Serial: true, Level: "exploration", Run: x01,
		Rule:        "rounds of goroutines, each running cases of one of the other checks on objects of its own with that check's oracle, under the race detector; distinct by pairs of checks seen running at the same moment",
		Assumptions: []string{"A case that also fails alone in a fresh process belongs to its own property, not to this one.", "The race detector reports races on executed code only."}}}
	for _, a := range areas {
		all = append(all, a...)
	}
	all = append(all, &h.Prop{ID: "first-use", Level: "exploration", Run: firstUse})
	h.Main(all...)
}

// firstUse runs in a process of its own: many goroutines make the same use of
// the code at the same time, before anything else has used it. Nothing orders
// them, so whatever is set up on first use shows.
func firstUse(c *h.Ctx) {
	for k := range c.N(6, 80) {
		c.Case(fmt.Sprintf("lookups/%d", k), func(r *rand.Rand) {
			slugs := append(core.Slugs(), "no-such-disk")
			r.Shuffle(len(slugs), func(i, j int) { slugs[i], slugs[j] = slugs[j], slugs[i] })
			const workers = 8
			gate := make(chan bool)
			var wg sync.WaitGroup
			got := make([][]string, workers)
			for g := range workers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					for i := range slugs {
						slug := slugs[(i+g*(k%3))%len(slugs)]
						geo, err := disks.GetPredefinedDiskGeometry(slug)
						got[g] = append(got[g], fmt.Sprint(slug, geo, err, geo.TotalSizeBytes()))
					}
					own := disko.NewError("of its own")
					for _, e := range append(core.Predefined(), own, own.WithMessage("y"), own.Wrap(io.ErrClosedPipe), disko.CastToDriverError(io.ErrNoProgress)) {
						d := disko.CastToDriverError(e).WithMessage("x").Wrap(io.EOF)
						got[g] = append(got[g], fmt.Sprint(d.Error(), errors.Is(d, e), errors.Is(d, io.EOF), errors.Is(d, disko.ErrNotFound)))
					}
				}()
			}
			close(gate)
			wg.Wait()
			for g := range workers {
				sort.Strings(got[g])
				if !slices.Equal(got[g], got[0]) {
					c.Fail("differs", "the same lookups gave different results on two threads:\n%v\n%v", got[0], got[g])
				}
			}
			c.Distinct("lookups", k)
		})
	}
	for _, a := range areas {
		for _, p := range a {
			for k := range c.N(3, 40) {
				c.Case(fmt.Sprintf("%s/%d", p.ID, k), func(r *rand.Rand) {
					old := runtime.GOMAXPROCS([]int{2, 4, 8, 16}[r.Intn(4)])
					defer runtime.GOMAXPROCS(old)
					const workers = 8
					start := r.Intn(20)
					if k%3 != 2 {
						start = k % 3
					}
					gate := make(chan bool)
					var wg sync.WaitGroup
					fails := make([][]h.SubFailure, workers)
					for g := range workers {
						wg.Add(1)
						go func() {
							defer wg.Done()
							done := false
							<-gate
							fails[g], _ = c.Sub(p, func(i int, name string) bool {
								if done {
									h.Stop()
								}
								if i < start || heavy(p, name) {
									return false
								}
								done = true
								return true
							})
						}()
					}
					close(gate)
					wg.Wait()
					for _, fs := range fails {
						for _, f := range fs {
							if alone(p, f.Case) == 0 {
								c.Fail("differs", "%s case %q passes alone but failed when %d goroutines used the code for the first time: %s", p.ID, f.Case, workers, f.Msg)
							}
						}
					}
					c.Distinct(p.ID, k)
				})
			}
		}
	}
}

// alone runs one case of a check by itself in a fresh process.
func alone(p *h.Prop, name string) int {
	rc, _ := apart(p.ID, name)
	return rc
}

func apart(id, name string) (int, string) {
	root, err := os.MkdirTemp(h.TempDir(), "alone")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(root)
	os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
	cmd := exec.Command(os.Args[0], "-prop", id, "-replay", name)
	cmd.Env = append(os.Environ(), "VERIF_ROOT="+root, "TMPDIR="+root, "GORACE=atexit_sleep_ms=0")
	out, _ := cmd.CombinedOutput()
	return cmd.ProcessState.ExitCode(), string(out)
}

type board struct {
	mu     sync.Mutex
	active map[int]string
	order  []int
	pairs  map[string]bool
	peak   int
}

func (b *board) start(g int, id string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for o, other := range b.active {
		if o != g {
			b.pairs[id+"|"+other] = true
		}
	}
	b.active[g] = id
	b.order = append(b.order, g)
	if len(b.active) > b.peak {
		b.peak = len(b.active)
	}
}

func (b *board) stop(g int) {
	b.mu.Lock()
	delete(b.active, g)
	b.mu.Unlock()
}

func x01(c *h.Ctx) {
	trace := os.Getenv("VERIF_X01_TRACE") != ""
	rounds := c.N(40, 1500)
	for k := range rounds {
		c.Case(fmt.Sprintf("round %d", k), func(r *rand.Rand) {
			workers := []int{8, 12, 16, 24}[r.Intn(4)]
			old := runtime.GOMAXPROCS([]int{2, 4, 8, 16}[r.Intn(4)])
			defer runtime.GOMAXPROCS(old)
			type job struct {
				p            *h.Prop
				start, limit int
			}
			var jobs []job
			// Half of the rounds put all goroutines into one area.
			area := areas[k%len(areas)]
			same := r.Intn(3) == 0
			pick := area[r.Intn(len(area))]
			for range workers {
				a := area
				if k%2 == 1 {
					a = areas[r.Intn(len(areas))]
				}
				p := a[r.Intn(len(a))]
				if same && k%2 == 0 {
					p = pick
				}
				jobs = append(jobs, job{p, r.Intn(80), 1 + r.Intn(6)})
			}
			b := &board{active: map[int]string{}, pairs: map[string]bool{}}
			type failure struct {
				p *h.Prop
				f h.SubFailure
			}
			var mu sync.Mutex
			var failures []failure
			cases := 0
			var wg sync.WaitGroup
			gate := make(chan bool)
			for g, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					done := 0
					var t0 time.Time
					last := ""
					fails, ran := c.Sub(j.p, func(i int, name string) bool {
						if trace && last != "" {
							fmt.Fprintf(traceW(), "%s %s %v\n", j.p.ID, last, time.Since(t0))
						}
						last = ""
						if done >= j.limit {
							h.Stop()
						}
						if i < j.start || heavy(j.p, name) {
							return false
						}
						done++
						b.start(g, j.p.ID)
						t0, last = time.Now(), name
						return true
					})
					b.stop(g)
					mu.Lock()
					cases += ran
					for _, f := range fails {
						failures = append(failures, failure{j.p, f})
					}
					mu.Unlock()
				}()
			}
			close(gate)
			wg.Wait()
			c.Count("cases", int64(cases))
			c.Count("overlapping_pairs", int64(len(b.pairs)))
			if int64(b.peak) > 1 {
				c.Count("rounds_with_overlap", 1)
			}
			for p := range b.pairs {
				c.Distinct("pair", p)
			}
			c.Distinct("order", fmt.Sprint(b.order))
			c.Eval(int64(cases))
			for i, f := range failures {
				if i >= 6 {
					break
				}
				switch rc := alone(f.p, f.f.Case); rc {
				case 0:
					c.Fail("differs", "%s case %q passes alone but failed while %d other goroutines worked on other objects: %s", f.p.ID, f.f.Case, workers-1, f.f.Msg)
				default:
					c.Count("failing_alone", 1)
					c.Logf("%s case %q fails alone too (exit %d)", f.p.ID, f.f.Case, rc)
					if trace {
						fmt.Fprintf(traceW(), "%s %q fails alone: %d %s\n", f.p.ID, f.f.Case, rc, f.f.Msg)
					}
				}
			}
		})
	}
	c.Case("first-use", func(r *rand.Rand) {
		var names []string
		for k := range c.N(6, 80) {
			names = append(names, fmt.Sprintf("lookups/%d", k))
		}
		for _, a := range areas {
			for _, p := range a {
				for k := range c.N(3, 40) {
					names = append(names, fmt.Sprintf("%s/%d", p.ID, k))
				}
			}
		}
		type result struct {
			rc        int
			name, out string
		}
		res := make(chan result)
		sem := make(chan bool, 6)
		for _, n := range names {
			go func() {
				sem <- true
				t0 := time.Now()
				rc, out := apart("first-use", n)
				if trace {
					fmt.Fprintf(os.Stderr, "first use %s %v\n", n, time.Since(t0))
				}
				<-sem
				res <- result{rc, n, out}
			}()
		}
		var bad []result
		for range names {
			x := <-res
			c.Eval(1)
			switch x.rc {
			case 0:
				c.Count("first_uses", 1)
				c.Distinct("first", x.name)
			case 1:
				bad = append(bad, x)
			default:
				fmt.Fprintf(os.Stderr, "first use %s: exit %d\n%s", x.name, x.rc, x.out)
			}
		}
		if len(bad) > 0 {
			c.Fail("first-use", "using the code from several goroutines before anything else has (%s):\n%s", bad[0].name, bad[0].out)
		}
	})
	c.Require("first_uses", 60)
	c.Require("cases", 300)
	c.Require("overlapping_pairs", 200)
	c.Require("rounds_with_overlap", 20)
}

func traceW() *os.File {
	f, _ := os.OpenFile(os.Getenv("VERIF_X01_TRACE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	return f
}

// heavy cases would dominate the run, or need the memory of the machine.
func heavy(p *h.Prop, name string) bool {
	for _, s := range []string{"large", "giant", "huge", "long", "run-lengths", "exhaustive", "beyond", "many blocks", "wide", "stretched", "big-blocks", "every date", "every time", "every hundredth"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}
