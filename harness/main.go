package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"

	"github.com/go-restruct/restruct"
)

// Usage: harness codec -profile P -seed S -n N -out FILE
// Runs N cases in supervised child processes: a case that kills its process is
// recorded as a crash and the rest continue in a new one.
func main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prof := fs.String("profile", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	from := fs.Int("from", 1, "")
	step := fs.Int("step", 1, "")
	out := fs.String("out", "", "")
	side := fs.String("side", "", "")
	procs := fs.Int("procs", 4, "")
	crash := fs.Int("crash", 0, "")
	off := fs.Bool("off", false, "")
	fs.Parse(os.Args[2:])
	if !profiles[*prof].off && !*off {
		restruct.EnableExprBeta()
	}
	switch os.Args[1] {
	case "codec":
		supervise("child", *prof, *seed, *n, *procs, *out)
	case "expr":
		supervise("exprchild", *prof, *seed, *n, *procs, *out)
	case "exprchild":
		exprChild(*prof, *seed, *from, *n, *step, *side, *crash)
	case "child":
		child(*prof, *seed, *from, *n, *step, *side)
	case "rerun":
		mode := "child"
		if xprofiles[*prof] != nil {
			mode = "exprchild"
		}
		if *prof == "types" || *prof == "loops" {
			mode = "typeschild"
		}
		supervise(mode, *prof, *seed, *from, 1, *out)
		b, err := os.ReadFile(*out)
		if err != nil {
			fatal(err)
		}
		ls := bytes.SplitAfter(b, []byte("\n"))
		os.WriteFile(*out, ls[len(ls)-2], 0o644)
	case "types":
		supervise("typeschild", *prof, *seed, *n, *procs, *out)
	case "typeschild":
		typesChild(*prof, *seed, *from, *n, *step, *side)
	case "treplay":
		treplay(*side, *out)
	case "genloops":
		genLoops()
	case "xreplay":
		xreplay(*side, *out)
	case "replay":
		replay(*side, *out)
	case "one":
		c := runCase(*prof, *seed, *from)
		b, _ := json.MarshalIndent(c.json(), "", " ")
		fmt.Println(string(b))
	default:
		fatal("unknown command")
	}
}

func child(prof string, seed int64, from, n, step int, side string) {
	limitMemory()
	f, err := os.Create(side)
	if err != nil {
		fatal(err)
	}
	beforeOp = func(c *Case, o *Op) {
		b := asciiJSON(c.json())
		f.WriteAt(append([]byte(fmt.Sprintf("%10d\n", len(b))), b...), 0)
	}
	w := bufio.NewWriter(os.Stdout)
	for i := from; i <= n; i += step {
		c := runCase(prof, seed, i)
		w.Write(asciiJSON(c.json()))
		w.WriteByte('\n')
		w.Flush()
		if len(c.Ops) > 0 && c.Ops[len(c.Ops)-1].St == "hang" {
			os.Exit(3)
		}
		if c.Off {
			return // one process each
		}
	}
}

func limitMemory() {
	if raceEnabled {
		return // the race detector reserves much
	}
	lim := uint64(6 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
}

// exprChild runs groups of evaluations; with crash > 0 it only reports that
// evaluation of group from as one that killed the process.
func exprChild(prof string, seed int64, from, n, step int, side string, crash int) {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	if crash > 0 {
		g := makeGroup(prof, seed, from)
		e := g.Evals[crash-1]
		e.St = "crash"
		g.Evals = []*XEval{e}
		w.Write(append(asciiJSON(g.json()), '\n'))
		return
	}
	limitMemory()
	f, err := os.Create(side)
	if err != nil {
		fatal(err)
	}
	beforeEval = func(k int) { f.WriteAt([]byte(fmt.Sprintf("%10d", k+1)), 0) }
	for i := from; i <= n; i += step {
		g := makeGroup(prof, seed, i)
		ok := g.run()
		w.Write(append(asciiJSON(g.json()), '\n'))
		w.Flush()
		if !ok {
			os.Exit(3)
		}
	}
}

func supervise(mode, prof string, seed int64, n, procs int, out string) {
	type res struct {
		lines map[int][]byte
		err   error
	}
	ch := make(chan res)
	var hangs atomic.Int32
	self, _ := os.Executable()
	for p := 0; p < procs; p++ {
		go func(p int) {
			r := res{lines: map[int][]byte{}}
			defer func() { ch <- r }()
			for i := 1 + p; i <= n && hangs.Load() < 6; {
				side := fmt.Sprintf("%s.side%d", out, p)
				cmd := exec.Command(self, mode, "-profile", prof, "-seed", strconv.FormatInt(seed, 10),
					"-from", strconv.Itoa(i), "-n", strconv.Itoa(n), "-step", strconv.Itoa(procs), "-side", side)
				cmd.Stderr = io.Discard
				if os.Getenv("HARNESS_DEBUG") != "" {
					cmd.Stderr = os.Stderr
				}
				so, _ := cmd.StdoutPipe()
				if err := cmd.Start(); err != nil {
					r.err = err
					return
				}
				rd := bufio.NewReaderSize(so, 1<<20)
				for {
					l, err := rd.ReadBytes('\n')
					if err != nil {
						break
					}
					r.lines[i] = l
					i += procs
				}
				err := cmd.Wait()
				if err != nil && i <= n {
					if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
						hangs.Add(1)
						continue
					}
					if mode == "exprchild" {
						// the group with only the evaluation that killed the process
						k, _ := os.ReadFile(side)
						o, e := exec.Command(self, mode, "-profile", prof, "-seed", strconv.FormatInt(seed, 10),
							"-from", strconv.Itoa(i), "-n", strconv.Itoa(i), "-crash", strings.TrimSpace(string(k))).Output()
						if e != nil {
							r.err = e
							return
						}
						r.lines[i] = o
						i += procs
						os.Remove(side)
						continue
					}
					b, e := os.ReadFile(side)
					ln := 0
					if e == nil && len(b) > 11 {
						fmt.Sscan(string(b[:10]), &ln)
					}
					if ln == 0 || len(b) < 11+ln {
						r.err = fmt.Errorf("child died before its first operation: %v", err)
						return
					}
					r.lines[i] = append(append([]byte{}, b[11:11+ln]...), '\n')
					i += procs
				}
				os.Remove(side)
			}
		}(p)
	}
	all := map[int][]byte{}
	for p := 0; p < procs; p++ {
		r := <-ch
		if r.err != nil {
			fatal(r.err)
		}
		for k, v := range r.lines {
			all[k] = v
		}
	}
	f, err := os.Create(out)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriter(f)
	for i := 1; i <= n; i++ {
		if all[i] == nil {
			if hangs.Load() > 0 {
				continue // given up after too many calls that did not return
			}
			fatal("case", i, "missing")
		}
		w.Write(all[i])
	}
	w.Flush()
	f.Close()
}
