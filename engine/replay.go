package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native builds and drives the compiled harnesses.
type Native struct {
	prog *Program
	bin  string
	err  error
	done chan struct{}
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"time"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
%s)

type req struct {
	H       string
	Vals    []string
	Search  float64
	Fix     bool
	Named   map[string][]string
	Seed    int64
	Corners []string
}
type resp struct {
	Outcome string
	Obs     []string
	Drawn   []string
	Runs    int
	OK      int
}

func strs(v []*big.Int) []string {
	r := []string{}
	for _, x := range v {
		r = append(r, x.String())
	}
	return r
}

func nums(v []string) []*big.Int {
	var r []*big.Int
	for _, s := range v {
		x, _ := new(big.Int).SetString(s, 10)
		r = append(r, x)
	}
	return r
}

func main() {
%s
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	for sc.Scan() {
		var q req
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			panic(err)
		}
		f := zz.Get(q.H)
		var a resp
		emit := func() {
			b, _ := json.Marshal(a)
			fmt.Fprintf(out, "%%s\n", b)
		}
		if f == nil {
			a.Outcome = "no such harness"
			emit()
			continue
		}
		one := func() {
			done := make(chan string, 1)
			go func() { done <- zz.Run(f) }()
			select {
			case a.Outcome = <-done:
			case <-time.After(20 * time.Second):
				a.Outcome = "hang"
				a.Drawn = strs(zz.Cur.Drawn)
				emit()
				os.Exit(3)
			}
		}
		zz.BigCorners = nums(q.Corners)
		if q.Search == 0 {
			zz.Cur = &zz.Source{Vals: nums(q.Vals), Reached: map[string]bool{}}
			one()
			a.Obs = zz.Cur.Obs
			a.Drawn = strs(zz.Cur.Drawn)
			a.Runs = 1
		} else {
			rng := rand.New(rand.NewSource(q.Seed))
			end := time.Now().Add(time.Duration(q.Search * float64(time.Second)))
			n := 0
			base := nums(q.Vals)
			for time.Now().Before(end) {
				n++
				src := &zz.Source{Rng: rng, Reached: map[string]bool{}}
				if q.Named != nil {
					src.Named = map[string][]*big.Int{}
					for k, v := range q.Named {
						src.Named[k] = nums(v)
					}
				} else if q.Fix {
					src.Vals = base
				} else if len(base) > 0 && n%%4 == 1 {
					// keep a random part of the candidate
					src.Keep = base
				}
				zz.Cur = src
				one()
				if a.Outcome == "ok" {
					a.OK++
				}
				if a.Outcome != "ok" && a.Outcome != "assume" {
					a.Drawn = strs(src.Drawn)
					break
				}
			}
			a.Runs = n
		}
		emit()
	}
}
`

func startNative(p *Program, hs []*Harness) *Native {
	n := &Native{prog: p, done: make(chan struct{})}
	pk := map[string]string{}
	var paths []string
	for _, h := range hs {
		if _, ok := pk[h.pkg]; !ok {
			pk[h.pkg] = ""
			paths = append(paths, h.pkg)
		}
	}
	sort.Strings(paths)
	var imps, regs strings.Builder
	for i, s := range paths {
		pk[s] = fmt.Sprintf("p%d", i)
		fmt.Fprintf(&imps, "\tp%d %q\n", i, s)
	}
	for _, h := range hs {
		fmt.Fprintf(&regs, "\tzz.Register(%q, %s.%s)\n", h.name, pk[h.pkg], h.name)
	}
	mainFile := filepath.Join(p.tmp, "zzmain.go")
	must(os.WriteFile(mainFile, []byte(fmt.Sprintf(nativeMain, imps.String(), regs.String())), 0o644))
	p.overlay[filepath.Join(p.repoDir, "internal/zzverif/zzmain/main.go")] = mainFile
	p.writeOverlay()
	n.bin = filepath.Join(p.tmp, "native")
	go func() {
		defer close(n.done)
		c := goCmd(p.repoDir, "build", "-modfile="+p.modfile, "-overlay", p.overlayJSON, "-o", n.bin, "./internal/zzverif/zzmain")
		if out, err := c.CombinedOutput(); err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

type nreq struct {
	H       string
	Vals    []string
	Search  float64
	Fix     bool                // keep the values and draw those beyond them
	Named   map[string][]string // values by name; the others are drawn
	Seed    int64
	Corners []string
}
type nresp struct {
	Outcome string
	Obs     []string
	Drawn   []string
	Runs    int
	OK      int
}

func bigStrs(v []*big.Int) []string {
	r := []string{}
	for _, x := range v {
		if x == nil {
			x = new(big.Int)
		}
		r = append(r, x.String())
	}
	return r
}

// runAll executes requests, restarting the process when one of them kills it.
func (n *Native) runAll(reqs []nreq, limit time.Duration) []nresp {
	out := make([]nresp, len(reqs))
	i := 0
	for i < len(reqs) {
		got, tail := n.batch(reqs[i:], limit)
		copy(out[i:], got)
		i += len(got)
		if i < len(reqs) && (len(got) == 0 || got[len(got)-1].Outcome != "hang") {
			out[i] = nresp{Outcome: "panic: process died: " + tail}
			i++
		}
	}
	return out
}

func (n *Native) batch(reqs []nreq, limit time.Duration) ([]nresp, string) {
	<-n.done
	if n.err != nil {
		return nil, n.err.Error()
	}
	var inb bytes.Buffer
	for _, r := range reqs {
		b, _ := json.Marshal(r)
		inb.Write(b)
		inb.WriteByte('\n')
	}
	c := exec.Command(n.bin)
	c.Dir = n.prog.tmp
	c.Stdin = &inb
	var eb bytes.Buffer
	c.Stderr = &eb
	op, _ := c.StdoutPipe()
	must(c.Start())
	timer := time.AfterFunc(limit, func() { c.Process.Kill() })
	defer timer.Stop()
	var res []nresp
	sc := bufio.NewScanner(op)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r nresp
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			res = append(res, r)
		}
	}
	c.Wait()
	t := eb.String()
	if k := strings.IndexByte(t, '\n'); k >= 0 {
		t = t[:k]
	}
	return res, t
}
